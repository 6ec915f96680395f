"""N02: the generator rejects ill-formed timed protocols and accepts sound ones."""
from nuscr import *
import itertools

NEEDS = ["lib"]
RULE = (
    "a message line is an error exactly when a role is undeclared, sender and receiver are equal, the left bound exceeds the right bound as numbers, or the interval ends before the end of the previous interval of that clock at the sender or the receiver, and only then; "
    "after an accepted line the remembered interval of its clock is this one, at both roles, and a reset clock is forgotten; a jump to an undeclared loop is an error; brackets of every line are counted before anything else and too many closing ones are an error; "
    "no code is emitted before the whole file was read without an error and with balanced brackets"
)
EXPLAIN = "Outcome and map contents of each path of the message handler over all orders of the bounds, the brackets and the remembered intervals, as numbers of one to thirty digits; line dispatcher and driver: branch conditions, counters and call order of every path."
FLOORS = {"message lines": 1200, "rejected": 250, "accepted": 500, "lines dispatched": 40, "files": 16, "bracket counts": 10, "inner blocks": 2, "patterns decided": 8}

BASE = [8, 9, 10, 11, 12]


def bounds():
    yield from itertools.product(BASE, BASE)
    yield from ((2, 100), (100, 20), (3, 300), (300, 3), (0, 10**30), (10**30, 10**29), (10**30, 2 * 10**30), (0, 0), (5, 2**32 + 1), (2**33, 2**32), (200, 1000), (70000, 70001))


def inc(b):
    return 1 if b else 0


def too_early(l, lb, r, rb, prev):
    """True/False/None (does not matter): the interval ends before the end of the previous one"""
    if prev is None:
        return False
    p, pi = int(prev[0]), prev[1] == "true"
    ri, li = rb == "]", lb == "["
    if l == r and not (ri and li):
        return None  # an empty interval
    if not pi and ri and r == p - 1:
        return None  # between two whole seconds
    return r + inc(ri) < p + inc(pi)


def run(R, B):
    F = B.facts("lib")
    pats = patterns(R, F)
    if not R.check(len(pats) >= 6, "patterns:missing", "only %d patterns of lines found" % len(pats)):
        return
    messages(R, F, pats)
    dispatcher(R, F, pats)
    uniform(R, F, pats)
    driver(R, F, pats)


def messages(R, F, pats):
    r = update_paths(R, F)
    if r is None:
        return
    ps, bind = r
    tree = Tree(ps)

    def verdict(m, prev, roles=("A", "B", "C")):
        t, rs = state(roles, prev)
        c = case_of(R, F, pats, bind, m, t, rs)
        hit = tree.of(c)
        R.count("message lines")
        return c, hit, {outcome(p) for p in hit}

    def must(m, prev, want, why, roles=("A", "B", "C")):
        c, hit, got = verdict(m, prev, roles)
        if want is None:
            return
        bad = [p for p in hit if outcome(p) != want]
        line = m.line().strip()
        R.check(got == {want}, "line:%s:%s" % (why, want), "line %r%s: %s, but the outcome is %s" % (line, (" after %s" % prev) if prev else "", why, "/".join(sorted(got)) or "none"), bad[0] if bad else None)
        R.count("rejected" if want == "err" else "accepted")
        if want == "ok" and got == {"ok"}:
            for p in hit:
                remembered(R, c, p, m, prev)

    # roles
    for a, b in (("Z", "B"), ("A", "Z"), ("Z", "Z")):
        must(Msg(a, b), {}, "err", "a role is not declared")
    must(Msg("A", "B"), {}, "err", "a role is not declared", ("A", "C"))
    must(Msg("A", "B"), {}, "err", "a role is not declared", ("C", "B"))
    for a in "ABC":
        must(Msg(a, a), {}, "err", "a role sends to itself")
    for a in "ABC":
        for b in "ABC":
            if a != b:
                must(Msg(a, b), {}, "ok", "the line is sound")
    # payloads and resets
    for payload, reset, sp in itertools.product(("", "u32"), ("", "x", "y"), ("", " ")):
        must(Msg(payload=payload, reset=reset, sp=sp), {}, "ok", "the line is sound")
        must(Msg(payload=payload, reset=reset, l="2", r="1", sp=sp), {}, "err", "the left bound is greater than the right bound")
    # bounds alone
    for (l, r), lb, rb in itertools.product(bounds(), "[]", "[]"):
        m = Msg(lb=lb, l=str(l), r=str(r), rb=rb)
        if l > r:
            must(m, {}, "err", "the left bound is greater than the right bound")
        elif l < r or (lb, rb) == ("[", "]"):
            must(m, {}, "ok", "the line is sound")
    # previous interval
    for (l, r), lb, rb in itertools.product(bounds(), "[]", "[]"):
        if l > r:
            continue
        for q, qi in itertools.product(BASE + [2, 100, 10**29], ("true", "false")):
            prev = (str(q), qi)
            for at in ("AB", "A", "B"):
                if at != "AB" and (l, lb) != (8, "["):
                    continue
                for reset in ("", "x", "y") if (l, lb) == (9, "[") else ("",):
                    d = {x: {"x": prev, "y": ("7", "true")} if x in at else {"y": ("7", "true")} for x in "AB"}
                    if at == "A" and q == 10:
                        del d["B"]
                    early = too_early(l, lb, r, rb, prev)
                    m = Msg(lb=lb, l=str(l), r=str(r), rb=rb, reset=reset)
                    must(m, d, None if early is None else "err" if early else "ok", "the interval cannot be met after the previous one" if early else "the line is sound")
    R.sample("update_messages: %d paths" % len(ps))


def remembered(R, c, p, m, prev):
    """the intervals known after an accepted line"""
    fin = final(c, p)
    for who in (m.sender, m.receiver):
        known = dict(prev.get(who, {}))
        inner = [v for (o, k), v in fin.items() if o.name == "prev" and k == who]
        if inner and inner[0] is None:
            after = {}
        elif inner and inner[0] is Unknown:
            after = None
        else:
            o = inner[0] if inner else Obj("prev[%s]" % who)
            after = dict(known) if not inner or o.name == "prev[%s]" % who else {}
            for (w, k), v in fin.items():
                if w == o:
                    if v is None:
                        after.pop(k, None)
                    else:
                        after[k] = v
        want = dict(known)
        want[m.clock] = (m.r, "true" if m.rb == "]" else "false")
        if m.reset:
            want.pop(m.reset, None)
        line = m.line().strip()
        if not R.check(after is not None, "remembered:unknown", "the intervals remembered for %s after %r cannot be told" % (who, line), p):
            continue
        if m.reset:
            R.check(m.reset not in after, "remembered:reset", "after %r the interval of the reset clock is still remembered for %s: %s" % (line, who, after), p)
        if m.reset != m.clock:
            R.check(norm(after.get(m.clock)) == norm(want[m.clock]), "remembered:interval", "after %r the interval remembered for %s is %s, not %s" % (line, who, after.get(m.clock), want[m.clock]), p)
        others = {k: v for k, v in after.items() if k not in (m.clock, m.reset)}
        R.check(others == {k: v for k, v in want.items() if k not in (m.clock, m.reset)}, "remembered:others", "after %r other clocks of %s hold %s" % (line, who, others), p)


def norm(v):
    if v is None or v is Unknown:
        return v
    try:
        return tuple(str(x).lower() for x in v)
    except TypeError:
        return v


# ------------------------------------------------------------ lines of every kind
MESSAGE = Msg("A", "B").line()
FULL = "hello() from A to B within [0;1] using x and resetting ();"


def dispatcher(R, F, pats):
    # a branch belongs to a part inside another one
    parts = {depth: Lines(R, F, depth=depth) for depth in (1, 2)}
    if not all(x.ok for x in parts.values()):
        return
    bind = parts[1].bind

    def at(text, number, o, c, offset, loops=None):
        case = line_case(R, F, pats, bind, text, number, o, c, offset, loops, *trees(text))
        hit = parts[len([t for t in case.ids if t[0] == "ix"])].of(case)
        R.count("lines dispatched")
        return case, hit, "line %d %r after %d opening and %d closing brackets%s" % (number, text.strip(), o, c, ", inside a choice" if offset == 1 else ", inside %d choices" % offset if offset else "")

    def all_err(key, why, text, *a, **k):
        case, hit, what = at(text, *a, **k)
        for p in hit:
            R.check(outcome(p) == "err" and not calls(p, UPDATE), "line:%s" % key, "%s: %s, but %s" % (what, why, "the message is handled" if calls(p, UPDATE) else "the outcome is %s" % outcome(p)), p)
        R.check(hit, "line:%s:none" % key, "no path handles %s" % what)

    # too many closing brackets
    for text, number, o, c, off in (("}", 4, 1, 1, 0), ("  } ", 9, 3, 3, 0), ("} }", 5, 2, 1, 0), ("}{}", 5, 1, 1, 0), ("    }}", 7, 4, 3, 1), ("} or {}}", 7, 3, 3, 1), (MESSAGE + "}", 3, 1, 1, 0), ("}}}}}}}}}}}}", 12, 10, 0, 0), ("}", 0, 0, 0, 0), ("timed global protocol P(role A, role B) }", 0, 0, 0, 0), ("}", 5, 1, 1, 1), ("}" * 3, 5, 2, 0, 0)):
        all_err("closing", "it closes more brackets than were opened", text, number, o, c, off)
    # a choice inside a choice is not supported
    for text in (MESSAGE, "choice at A {", ""):
        all_err("nested", "choices may not be nested", text, 6, 5, 1, 2)
    # only the first line may declare the protocol, and it has to
    head = "timed global protocol Simple(role A, role B){"
    all_err("head", "the protocol is declared twice", head, 3, 1, 0, 0)
    for text in ("global protocol Simple(role A, role B){", "{", MESSAGE + "{", "choice at A {", "rec Loop { ["):
        all_err("head", "the first line does not declare a protocol", text, 0, 0, 0, 0)
    # loops
    for loops in ({}, {"Other": ("0", [])}):
        for o, off in ((1, 0), (2, 1)):
            all_err("continue", "the loop is not declared", "continue Loop;", 5, o, 0, off, loops=loops)
    # the rest of a block is read exactly when the block is not at its end
    for text, number, o, c, off, loops in (
        [(t, 5, o, c, off, {}) for t in (MESSAGE, "", "    ", "choice at A {", "[]", "rec Loop [") for o, c, off in ((1, 0, 0), (3, 2, 0), (2, 0, 1), (5, 3, 1))]
        + [("continue Loop;", 5, 2, 0, 1, {"Loop": ("0", [])}), ("continue Loop;", 5, 1, 0, 0, {"Loop": ("0", [])}), (head, 0, 0, 0, 0, {}), ("timed global protocol Two(role B, role A, role C) {", 0, 0, 0, 0, {}), ("} or {", 6, 2, 0, 1, {}), ("  }   or   {", 6, 4, 2, 1, {})]
    ):
        case, hit, what = at(text, number, o, c, off, loops)
        n = 0
        for p in hit:
            kind = outcome(p)
            failed = any(v == 1 and t[0] == "t" and t[1][0] == "call" for t, v in p.tags.items())
            if kind in ("panic", "cut") or failed and kind == "err":
                continue
            n += 1
            rec = [e for e in p.ev("call") if e[1] == LINE]
            again = bool(rec) and p.value == rec[-1][3] or len(p.ev("read")) > 1 and kind == "ok"
            R.check(again and kind != "err", "line:reading", "after %s the rest of the file is not read: %s" % (what, "the line is rejected" if kind == "err" else "reading ends"), p)
            for e in rec[:1]:
                cs = counters(F, case, p, e)
                if cs is not None:
                    want = (o + text.count("{"), c + text.count("}"))
                    R.check(cs == want, "line:counters", "after %s the counts of brackets are %s, not %s" % (what, cs, want), p)
                    R.count("bracket counts")
        R.check(n, "line:reading:none", "no path goes on after %s" % what, hit[0] if hit else None)
    for text, number, o, c, off in (("}", 9, 1, 0, 0), ("}", 9, 4, 3, 0), (" } ", 9, 3, 2, 0), ("}}", 8, 2, 0, 0), ("}", 8, 3, 1, 1)):
        case, hit, what = at(text, number, o, c, off)
        for p in hit:
            R.check(outcome(p) == "ok" and not calls(p, LINE, UPDATE) and len(p.ev("read")) == 1, "line:end", "%s ends the block, but %s" % (what, "the outcome is %s" % outcome(p) if outcome(p) != "ok" else "reading goes on"), p)
        R.check(hit, "line:end:none", "no path handles %s" % what)
    # an error of a message or of a later line is an error of the whole
    for o, c, off in ((1, 0, 0), (2, 0, 1), (4, 2, 1)):
        case, hit, what = at(MESSAGE, 3, o, c, off)
        for p in hit:
            if p.kind == "cut":
                continue
            up = calls(p, UPDATE)
            if not R.check(len(up) == 1, "message:once", "%s is handled %d times" % (what, len(up)), p):
                continue
            e = up[0]
            try:
                got = [case.val(I_strip(p, a)) for a in e[2][:1]]
            except Unknown:
                got = None
            R.check(got == [MESSAGE], "message:line", "%s is handled with the line %s" % (what, got), p)
            v = p.tags.get(e[3])
            if v == 1:
                R.check(outcome(p) == "err" and not after(p, e, LINE), "message:error", "the error of %s does not end the reading" % what, p)
            else:
                R.check(outcome(p) != "err", "message:error", "%s is accepted, but the outcome is err" % what, p)
    for text in ("choice at A {", "} or {"):
        case, hit, what = at(text, 5, 2, 0, 0 if text[0] == "c" else 1)
        for p in hit:
            rec = [e for e in p.ev("call") if e[1] == LINE]
            if rec and rec[0][3] != p.value:
                v = p.tags.get(rec[0][3])
                R.check(v == 0 or v == 1 and outcome(p) == "err", "block:error", "an error in the block opened by %s is dropped" % what, p)
                R.count("inner blocks")
    R.sample("process_line: %d paths" % sum(len(x.ps) for x in parts.values()))


def trees(text):
    """the tree of the block and the one around it"""
    if "or" not in text.split():
        return None, None
    t, u = state(index=(0, 0))[0], state()[0]
    u["enums"] = Obj("enums of the parent", {"0_0": ("A", 0)})
    return t, u


def I_strip(p, v):
    """the value a path leaves behind a reference"""
    n = 0
    while v is not None and v[0] == "r" and n < 8:
        w = p.st.mem.get(v[1])
        for s in v[2]:
            w = w[3][s[1]] if w is not None and w[0] == "a" and s[0] == "f" else None
        if w is None:
            raise Unknown(sh(v))
        v, n = w, n + 1
    return v


def counters(F, case, p, e):
    """bracket counts handed to a recursive call"""
    for b in p.ev("before"):
        if b[1] == e[3] and b[3] is not None and b[3][0] == "a" and b[3][1][1].endswith("::GlobalElements"):
            names = [x[0] for x in F.adts[b[3][1][1]]["variants"][0][2]]
            try:
                return tuple(case.val(b[3][3][names.index(n)]) for n in ("opening_brackets", "closing_brackets"))
            except Unknown:
                return None
    return None


def calls(p, *names):
    return [e for e in p.ev("call") if e[1] in names]


def after(p, e, *names):
    es = p.ev("call")
    return [x for x in es[es.index(e) + 1:] if x[1] in names]


# ------------------------------------------------------------ the driver
GEN = "mpstthree::top_down_nuscr::generator::generator"
CODE = re.compile(r".*::code_generate::(\w+)::generate_\w+$")


def driver(R, F, pats):
    if not R.check(GEN in F.fns and LINE in F.fns, "driver:missing", "the driver of the generator is gone"):
        return
    f = F.fns[LINE]
    kinds = [kind_of(t) for t in f["inputs"]]
    emit = {k for k in F.fns if CODE.match(k) and k.rsplit("::generate_", 1)[1] == k.rsplit("::", 2)[1]}
    R.check(len(emit) >= 6, "driver:emitters", "only %d emitters of code found" % len(emit))
    opq = lambda nice, key: "::code_generate::" in key or key.endswith("::check_fsm")
    for lines in ([], ["#0"], ["#0", "#1"]):
        made = []

        def handled(I, st, a, c):
            n = st.fresh()
            t = ("t", ("call", n, LINE), c.dty)
            st.event("call", LINE, tuple(a), t, c.site)
            for i, k in enumerate(kinds):
                if a[i] is None or a[i][0] not in ("r", "t"):
                    continue
                c1, p1 = I.deref_loc(st, a[i])
                if k == "lines":
                    I.store(st, c1, p1, ("it", tuple(("a", ("tuple",), 0, (("t", ("number", j), ("prim", "usize")), ("t", ("line", j), STRING))) for j in range(len(lines)))))
                else:
                    ty = f["inputs"][i][2]
                    tok = ("t", ("mut", n, i), ty)
                    if k == "global":
                        made.append(tok)
                    I.store(st, c1, p1, tok)
            return [(st, t)]

        mods = MODELS.copy()
        mods.exact[F.fns[LINE]["nice"]] = handled
        mods.exact[LINE] = handled
        ps, _ = R.paths_of(F, GEN, mods=mods, opaque=[opq])
        if ps is None:
            return
        R.check(made, "driver:reading", "the driver does not read the lines of the file")
        for o, c, texts in FILES:
            if len(texts) != len(lines):
                continue
            total = (o + sum(t.count("{") for t in texts), c + sum(t.count("}") for t in texts))
            sound = o == c and total[0] == total[1]
            case = Case(R, F, pats, {0: "file.nuscr", 1: "out_", 2: False}, {t: {"opening_brackets": o, "closing_brackets": c, "roles": ["A", "B"]} for t in made})
            for j, t in enumerate(texts):
                case.ids[("line", j)] = t
                case.ids[("number", j)] = 20 + j
            what = "a file with %d opening and %d closing brackets%s" % (o, c, ", followed by %s" % texts if texts else "")
            hit = case.feasible([p for p in ps if p.kind != "cut"])
            n = 0
            for p in hit:
                line = calls(p, LINE)
                if not line or p.tags.get(line[0][3]) != 0:
                    continue
                failed = [t for t, v in p.tags.items() if v == 1 and t[0] == "t" and t[1][0] == "call" and t != line[0][3]]
                out = [e for e in p.ev("call") if "::code_generate::" in e[1]]
                n += 1
                R.count("files")
                if not sound:
                    R.check(not out, "driver:emits", "code is emitted for %s" % what, p)
                    R.check(outcome(p) == "err", "driver:unbalanced", "%s is accepted" % what, p)
                elif not failed:
                    R.check(outcome(p) == "ok", "driver:rejects", "%s is rejected" % what, p)
                    missing = emit - {e[1] for e in out} - {F.fns[k]["nice"] for k in ()}
                    R.check(not missing, "driver:omits", "%s: nothing is emitted by %s" % (what, sorted(missing)), p)
            R.check(n, "driver:files", "no path of the driver reads %s" % what)
        order(R, ps)


FILES = [(1, 1, []), (4, 4, []), (2, 1, []), (11, 9, []), (1, 1, [""]), (1, 1, ["}"]), (1, 1, ["{"]), (2, 2, ["{}"]), (2, 1, ["}"]), (2, 1, ["text"]), (1, 1, ["}", ""]), (1, 1, ["", "}"]), (1, 1, ["{", "}"]), (1, 1, ["", "  // end"]), (3, 3, ["{", "{"]), (3, 2, ["", "}"])]


def order(R, ps):
    """errors reach the caller, and nothing is emitted after one"""
    for p in ps:
        if p.kind == "cut":
            continue
        line = calls(p, LINE)
        out = [e for e in p.ev("call") if "::code_generate::" in e[1]]
        es = p.ev("call")
        if out:
            R.check(len(line) == 1 and es.index(line[0]) < es.index(out[0]) and p.tags.get(line[0][3]) == 0, "driver:order", "code is emitted before all lines were read without an error", p)
        for e in es:
            if e[1] == LINE or "::code_generate::" in e[1] or e[1].endswith("::check_fsm"):
                v = p.tags.get(e[3])
                R.check(v is not None or e[3] == p.value, "driver:ignored", "the result of %s is not looked at" % e[1].rsplit("::", 1)[1], p)
                if v == 1:
                    R.check(outcome(p) == "err", "driver:error", "an error of %s does not reach the caller" % e[1].rsplit("::", 1)[1], p)
                    R.check(not after_emit(es, e), "driver:emits-after-error", "code is emitted after an error of %s" % e[1].rsplit("::", 1)[1], p)
                R.count("results of the driver")


def after_emit(es, e):
    return [x for x in es[es.index(e) + 1:] if "::code_generate::" in x[1]]
