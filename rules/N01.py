"""N01: the generator gives both partners of a message the same interaction."""
from nuscr import *

NEEDS = ["lib"]
RULE = (
    "for every well-formed message line: exactly one timed send is appended to the channel sender->receiver and exactly one timed receive to receiver->sender, with the same message type, clock, bounds, inclusion flags ('[' left and ']' right are inclusive) and reset as written; "
    "one step is appended to the ordering of exactly these two roles, each naming the other; each emitted type is called as the last link of its pair or role says and continues with the link stored for the next one; "
    "a choice is sent by its chooser to every other role and received by each of them, ends their chains, and every branch starts chains with names of its own; lines inside a loop are kept for it and said again where it is continued"
)
EXPLAIN = "Texts appended by each path of the message handler, with everything below it inlined, evaluated on cases covering brackets, bounds, payloads, resets, roles and positions in the chain."
FLOORS = {"messages": 60, "emitted types": 300, "choices": 12, "initial names": 72, "lines kept": 3, "continued": 6, "first lines": 1, "patterns decided": 8}


def squeeze(s):
    return re.sub(r"\s+", "", re.sub(r"'([^']*)'", lambda m: "'" + m.group(1).replace(" ", "\x00") + "'", s)).replace("\x00", " ")


TYPE = re.compile(r"type(\w+)=(\w+)<(.*)>;$")


def cases():
    for lb in "[]":
        for rb in "[]":
            yield Msg(lb=lb, rb=rb), {}, (0,)
    for a in "ABC":
        for b in "ABC":
            if a != b:
                yield Msg(a, b, lb="[", rb="["), {"AB": 2, "BA": 1, "AC": 4, "CA": 3, "BC": 6, "CB": 5, "A": 7, "B": 8, "C": 9}, (0,)
                yield Msg(a, b, lb="]", l="3", r="45", reset="y"), {"AB": 2, "BA": 1, "A": 2, "B": 3, "C": 1}, (0, 1)
    for msg, payload in (("hello", ""), ("bye", "u32"), ("ping", "Data")):
        for clock in "xz":
            for reset in ("", "x", "y", "z"):
                for l, r in (("0", "1"), ("2", "10"), ("9", "100")):
                    yield Msg("B", "A", msg, payload, "]", l, r, "[", clock, reset, " "), {"AB": 1, "BA": 2, "A": 1, "B": 4}, (0, 0, 2)


def expect(R, c, p, m, sizes, index, tag):
    ix = "_".join(map(str, index))
    fin = final(c, p)
    pushed = {}
    for e in p.ev("push"):
        try:
            o, v = c.val(e[1]), c.val(e[2])
        except Unknown as u:
            o, v = None, "unknown: %s" % u
        pushed.setdefault(o.name if isinstance(o, Obj) else str(o), []).append(v)
    for e in p.ev("vecmut"):
        try:
            o = c.val(e[2]).name
        except (Unknown, AttributeError):
            o = "?"
        R.check(not o.startswith(("messages", "stacks")), "vecmut:%s" % tag, "the emitted types of %s are changed by %s" % (o, e[1]), p)
    wants = {}
    for x, y, kind in ((m.sender, m.receiver, "SendTimed"), (m.receiver, m.sender, "RecvTimed")):
        n = sizes.get(x + y, 0)
        wants["messages[%s][%s]" % (x, y)] = (
            "Message_%s_v_%d_From%sTo%s" % (ix, n, x, y), kind,
            [None, "'%s'" % m.clock, m.l, "true" if m.lb == "[" else "false", m.r, "true" if m.rb == "]" else "false", "'%s'" % (m.reset or " "), "Message_%s_v_%d_From%sTo%s" % (ix, n + 1, x, y)],
        )
        n = sizes.get(x, 0)
        wants["stacks[%s]" % x] = ("Ordering_%s_v_%d_For%s" % (ix, n, x), "Role" + y, ["Ordering_%s_v_%d_For%s" % (ix, n + 1, x)])
    mine = {k: v for k, v in pushed.items() if k.startswith(("messages", "stacks")) or k not in ("messages", "stacks") and "[" not in k}
    extra = set(mine) - set(wants)
    R.check(not extra, "extra:%s" % tag, "a message from %s to %s also appends to %s" % (m.sender, m.receiver, sorted(extra)), p)
    types = []
    for where, (name, kind, fields) in sorted(wants.items()):
        what = {"S": "send", "R": "receive"}[kind[0]] if where.startswith("messages") else "ordering"
        got = pushed.get(where, [])
        if not R.check(len(got) == 1, "%s:number" % what, "a message from %s to %s appends %d type(s) to %s: %s" % (m.sender, m.receiver, len(got), where, got), p):
            continue
        R.count("emitted types")
        t = TYPE.match(squeeze(got[0]))
        if not R.check(t is not None, "%s:form" % what, "%s gets %r" % (where, got[0]), p):
            continue
        R.check(t.group(1) == name, "%s:name" % what, "%s gets %r, the chain goes on with %s" % (where, got[0], name), p)
        R.check(t.group(2) == kind, "%s:kind" % what, "%s gets %r, %s expected" % (where, got[0], kind), p)
        fs = t.group(3).split(",")
        if not R.check(len(fs) == len(fields), "%s:fields" % what, "%s gets %r" % (where, got[0]), p):
            continue
        labels = ["message", "clock", "left bound", "left inclusion", "right bound", "right inclusion", "reset", "continuation"] if what != "ordering" else ["continuation"]
        for lab, g, w in zip(labels, fs, fields):
            if w is None:
                types.append(g)
                continue
            R.check(g == w, "%s:%s" % (what, lab), "line %r: %s of the type for %s is %s, not %s" % (m.line().strip(), lab, where, g, w), p)
        last = ("last_message[%s]" % where[9:10], where[12:13]) if where.startswith("messages") else ("last_stack", where[7:8])
        v = [x for (o, k), x in fin.items() if (o.name, k) == last]
        R.check(v == [fields[-1]], "%s:link" % what, "after line %r the last link of %s is %s, the emitted type continues with %s" % (m.line().strip(), where, v, fields[-1]), p)
    R.check(len(set(types)) == 1 and types and m.msg.lower() in types[0].lower(), "message:type", "line %r: the two partners exchange %s" % (m.line().strip(), types), p)


def run(R, B):
    F = B.facts("lib")
    pats = patterns(R, F)
    if not R.check(len(pats) >= 6, "patterns:missing", "only %d patterns of lines found" % len(pats)):
        return
    trees = {}
    for m, sizes, index in cases():
        t, roles = state(sizes=sizes, index=index)
        if len(index) not in trees:
            r = update_paths(R, F, len(index))
            if r is None:
                return
            trees[len(index)] = Tree(r[0]), r[1]
            R.sample("update_messages in a part named by %d number(s): %d paths" % (len(index), len(r[0])))
        tree, bind = trees[len(index)]
        c = case_of(R, F, pats, bind, m, t, roles)
        hit = tree.of(c)
        done = [p for p in hit if outcome(p) == "ok"]
        R.count("messages")
        if not R.check(done, "emitted:nothing", "no code is emitted for %r" % m.line().strip(), hit[0] if hit else None):
            continue
        for p in done:
            expect(R, c, p, m, sizes, index, "message")
    choices(R, F, pats)


# ------------------------------------------------------------ choices, branches, loops and the first line
def pushes(c, p):
    out = {}
    for e in p.ev("push"):
        try:
            o, v = c.val(e[1]), c.val(e[2])
        except Unknown:
            continue
        if isinstance(o, Obj):
            out.setdefault(o.name, []).append(v)
    return out


def going_on(p):
    """the line was accepted as far as this path tells"""
    return p.kind == "return" and outcome(p) != "err"


def interaction(R, c, p, got, fin, sender, ix, choice, sizes, what, tag):
    """a choice is sent by its sender to every other role, which receives it, and ends this part"""
    wants = {}
    for r in "ABC":
        if r != sender:
            for x, y, kind in ((sender, r, "SendTimed"), (r, sender, "RecvTimed")):
                wants["messages[%s][%s]" % (x, y)] = ("Message_%s_v_%d_From%sTo%s" % (ix, sizes.get(x + y, 0), x, y), "%s<%s_From%sTo%s,' ',-2,false,-1,false,' ',End>" % (kind, choice, sender, r))
        wants["stacks[%s]" % r] = ("Ordering_%s_v_%d_For%s" % (ix, sizes.get(r, 0), r), "RoleBroadcast" if r == sender else "Role%s<RoleEnd>" % sender)
    mine = {k: v for k, v in got.items() if k.startswith(("messages", "stacks"))}
    extra = set(mine) - set(wants)
    R.check(not extra, "%s:extra" % tag, "%s also appends to %s" % (what, sorted(extra)), p)
    for where, (name, body) in sorted(wants.items()):
        g = mine.get(where, [])
        kind = "ordering" if where.startswith("stacks") else body[:4].lower()
        R.check([squeeze(x) for x in g] == ["type%s=%s;" % (name, body)], "%s:%s" % (tag, kind), "%s appends %s to %s, not one type %s = %s" % (what, g, where, name, body), p)
        last = ("last_message[%s]" % where[9:10], where[12:13]) if where.startswith("messages") else ("last_stack", where[7:8])
        v = [x for (o, k), x in fin.items() if (o.name, k) == last]
        R.check(v == [""], "%s:open" % tag, "after %s the chain of %s goes on with %s" % (what, where, v), p)
        R.count("emitted types")


def names(R, c, p, fin, tree, ix, what):
    """the chains of a new part start with names of their own, under which the first type of each is emitted"""
    seen = {}
    objs = {}
    for f in ("messages", "first_message", "last_message", "stacks", "first_stack", "last_stack"):
        try:
            objs[f] = tree[f] if isinstance(tree[f], Obj) else c.val(tree[f])
        except Unknown:
            objs[f] = None
        if not R.check(isinstance(objs[f], Obj), "names:unknown", "%s: %s of the new part cannot be told" % (what, f), p):
            return
    at = lambda o, k: next((v for (w, x), v in fin.items() if w == o and x == k), None)
    for x in "ABC":
        R.check(at(objs["stacks"], x) == [], "names:stacks", "%s: the ordering of %s does not start empty" % (what, x), p)
        first, last = at(objs["first_stack"], x), at(objs["last_stack"], x)
        R.check(isinstance(first, str) and first == last and first == "Ordering_%s_v_0_For%s" % (ix, x), "names:ordering", "%s: the ordering of %s starts as %s and goes on with %s" % (what, x, first, last), p)
        seen.setdefault(first, []).append(x)
        for y in "ABC":
            if x == y:
                continue
            chan = at(objs["messages"], x)
            R.check(isinstance(chan, Obj) and at(chan, y) == [], "names:messages", "%s: the messages of %s to %s do not start empty" % (what, x, y), p)
            fo, lo = at(objs["first_message"], x), at(objs["last_message"], x)
            first, last = (at(o, y) if isinstance(o, Obj) else None for o in (fo, lo))
            R.check(isinstance(first, str) and first == last and first == "Message_%s_v_0_From%sTo%s" % (ix, x, y), "names:message", "%s: the messages of %s to %s start as %s and go on with %s" % (what, x, y, first, last), p)
            seen.setdefault(first, []).append(x + y)
            R.count("initial names")
    twice = {k: v for k, v in seen.items() if len(v) > 1}
    R.check(not twice, "names:shared", "%s: names are shared: %s" % (what, twice), p)


def choices(R, F, pats):
    trees = {}
    for depth in (1, 2):
        trees[depth] = Lines(R, F, depth=depth)
        if not trees[depth].ok:
            return
        bind = trees[depth].bind
    for sender in "ABC":
        for index, sizes in (((0,), {}), ((0,), {"AB": 2, "BA": 3, "AC": 4, "CA": 5, "BC": 6, "CB": 7, "A": 8, "B": 9, "C": 10}), ((0, 1), {"AB": 1, "C": 2})):
            text = "choice at %s {" % sender
            t, roles = state(sizes=sizes, index=index)
            c = line_case(R, F, pats, bind, text, 5, 1, 0, 0, None, t, None, roles)
            ix = "_".join(map(str, index))
            n = 0
            for p in trees[len(index)].of(c):
                rec = [e for e in p.ev("call") if e[1] == LINE]
                if not going_on(p) or not rec:
                    continue
                n += 1
                what = "line %r" % text
                fin = final(c, p)
                interaction(R, c, p, pushes(c, p), fin, sender, ix, "Choice_%s" % ix, sizes, what, "choice")
                sub = inner_tree(F, c, p, rec[0])
                if R.check(sub is not None, "choice:block", "%s: the block of the choice is not read into a part of its own" % what, p):
                    names(R, c, p, fin, sub, ix + "_0", what)
                    R.check(value(c, sub["index"]) == list(index) + [0], "choice:index", "%s: the first branch is number %s" % (what, value(c, sub["index"])), p)
                    subs(R, c, p, fin, t["sub_trees"], what)
                en = [v for (o, k), v in fin.items() if o.name == "enums" and k == ix + "_0"]
                R.check(bool(en) and en[0] == (sender, 0), "choice:chooser", "%s: the chooser is noted as %s" % (what, en), p)
            R.count("choices", n)
            R.check(n, "choice:none", "no path handles %r" % text)
    # the next branch
    for sender, k in (("A", 0), ("B", 1), ("C", 4)):
        text = "} or {"
        t, roles = state(index=(0, k))
        u, _ = state()
        u["enums"] = Obj("enums of the parent", {"0_0": (sender, k)})
        u["sub_trees"] = Obj("parts of the parent", [])
        c = line_case(R, F, pats, bind, text, 6, 2, 0, 1, None, t, u, roles)
        n = 0
        for p in trees[2].of(c):
            rec = [e for e in p.ev("call") if e[1] == LINE]
            if not going_on(p) or not rec:
                continue
            n += 1
            what = "line %r of a choice at %s" % (text, sender)
            got = {w: v for w, v in pushes(c, p).items() if w.startswith(("messages", "stacks"))}
            R.check(not got, "or:extra", "%s appends to %s" % (what, sorted(got)), p)
            sub = inner_tree(F, c, p, rec[0])
            if R.check(sub is not None, "or:block", "%s: the branch is not read into a part of its own" % what, p):
                fin = final(c, p)
                names(R, c, p, fin, sub, "0_%d" % (k + 1), what)
                R.check(value(c, sub["index"]) == [0, k + 1], "or:index", "%s: the branch after number %d is number %s" % (what, k, value(c, sub["index"])), p)
                subs(R, c, p, fin, u["sub_trees"], what)
        R.count("choices", n)
        R.check(n, "or:none", "no path handles %r" % text)
    loops(R, F, pats, bind, trees[1])
    uniform(R, F, pats, head(R, F, pats) or ())


def value(c, t):
    try:
        return c.val(t)
    except Unknown:
        return None


def subs(R, c, p, fin, into, what):
    """the part read for a branch becomes a part of the tree around it"""
    into = into.name
    got = []
    for e in p.ev("push"):
        try:
            o = c.val(e[1])
        except Unknown:
            # after the block was read the tree is only known to be the one handed in
            o = None
        if isinstance(o, Obj) and o.name == into or o is None and e[2] is not None and ty_of(e[2]) == "Tree":
            got.append(e)
    R.check(len(got) == 1, "branch:kept", "%s: the branch is kept %d times" % (what, len(got)), p)


def ty_of(v):
    if v[0] == "a" and v[1][0] == "adt":
        return v[1][1].rsplit("::", 1)[1]
    if v[0] == "t" and v[2] and v[2][0] == "adt":
        return v[2][1].rsplit("::", 1)[1]
    return None


MESSAGE = Msg("A", "B").line()


def loops(R, F, pats, bind, tree):
    """what is said inside a loop is kept for it, and said again where the loop is continued"""
    for text in (MESSAGE, "choice at A {", "rec Loop ["):
        c = line_case(R, F, pats, bind, text, 5, 1, 0, 0, {"Outer": ("0", [])})
        n = 0
        for p in tree.of(c):
            went = [e for e in p.ev("next") if p.tags.get(e[2]) == 1]
            if not went or p.kind == "panic":
                continue
            n += 1
            kept = [v for v in (value(c, e[2]) for e in p.ev("push")) if v == text]
            R.check(len(kept) == len(went), "loop:kept", "line %r is kept %d times by %d open loops" % (text, len(kept), len(went)), p)
        R.count("lines kept", n)
        R.check(n, "loop:kept:none", "line %r inside a loop is not kept for it" % text)
    for at in ("0", "0_0"):
        for saved in (["rec Loop [", "choice at A {"], ["rec Loop [", "choice at C {"], ["rec Loop [", MESSAGE]):
            text = "continue Loop;"
            c0 = line_case(R, F, pats, bind, text, 7, 2, 0, 1, {"Loop": (at, [])})
            n = 0
            for p in tree.of(c0):
                c = line_case(R, F, pats, bind, text, 7, 2, 0, 1, {"Loop": (at, [])}, c0.args[bind["tree"]])
                ends = False
                for i, e in enumerate(e for e in p.ev("next")):
                    c.calls[e[2]] = ("some", saved[i]) if i < len(saved) else ("none",)
                    ends = ends or i >= len(saved)
                if not c.feasible([p]):
                    continue
                what = "line %r after %s" % (text, saved)
                if saved[1] == MESSAGE:
                    up = [e for e in p.ev("call") if e[1] == UPDATE]
                    if len(p.ev("next")) < 2 or p.kind == "panic" or p.kind == "cut" and not up:
                        continue
                    n += 1
                    R.check(len(up) == 1, "continue:message", "%s handles the message of the loop %d times" % (what, len(up)), p)
                    continue
                if not going_on(p):
                    continue
                n += 1
                interaction(R, c, p, pushes(c, p), final(c, p), saved[1][10], "0", "Choice_%s" % at, {}, what, "continue")
            R.count("continued", n)
            R.check(n, "continue:none", "line %r does not say the lines of the loop %s again" % (text, saved))


def head(R, F, pats):
    ls = Lines(R, F, head=True)
    if not ls.ok:
        return
    bind = ls.bind
    text = "timed global protocol P(role A, role B, role C) {"
    c = line_case(R, F, pats, bind, text, 0, 0, 0, 0)
    n = 0
    lists = set()
    for p in c.feasible(ls.of(c)):
        rec = [e for e in p.ev("call") if e[1] == LINE]
        if not rec or not going_on(p):
            continue
        n += 1
        for e in p.ev("regex"):
            if e[1] == "captures_iter":
                v = c.val(e[2])
                lists.add(v[1] if isinstance(v, tuple) and v[0] == "static" else sh(e[2]))
        t = F.adts[K + "Tree"]["variants"][0][2]
        main = {f[0]: Obj("new#main.%s" % f[0]) for f in t}
        # a map of the main part may have been replaced as a whole
        for f, v in (inner_tree(F, c, p, rec[0]) or {}).items():
            if v is not None and v[0] == "t" and v[1][0] == "map":
                main[f] = c.val(v)
        names(R, c, p, final(c, p), main, "0", "line %r" % text)
    R.count("first lines", n)
    R.check(n, "head:none", "no path handles %r" % text)
    R.check(lists and lists <= set(pats), "head:list", "the roles of the first line are read with %s" % sorted(lists))
    return lists & set(pats)
