"""Helpers for the generator of timed global protocols (N01, N02).

The functions of the generator branch on the text of one line, on a few counters and on the presence of names in
maps.  Their paths are collected from the MIR once; a *case* (one line and one state of the maps) is then put into
the conditions of these paths, which tells the paths of that case, and the terms the paths push, store or return are
evaluated the same way.  Names only meet equality tests and formatting, so distinct names stand for all names; bounds
are taken from a grid which covers every order of left, right and previous bound at distance 0, 1 and more, with
numbers of one and of several digits (texts and numbers are ordered differently).  Nothing is executed."""
import re

import rx
import texts
from core import *
from window import Unknown

K = "mpstthree::top_down_nuscr::auxiliary_objects::"
RANGE = {"i8": 7, "i16": 15, "i32": 31, "i64": 63, "i128": 127, "isize": 63}
URANGE = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}


class Obj:
    """a container of the case: a map or a vector with an identity"""

    def __init__(self, name, content=None):
        self.name, self.content = name, content

    def __eq__(self, o):
        return isinstance(o, Obj) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class Opaque(str):
    """text that is only known to be a function of the text it is made from"""


def text(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v
    raise Unknown("text of %r" % (v,))


def patterns(R, F):
    """{static: compiled pattern}, from the initialisers of the static expressions"""
    out = {}
    for k, f in F.fns.items():
        if not k.startswith("mpstthree::top_down_nuscr") or not f["kind"].startswith("Static"):
            continue
        c = k + "::{closure#0}"
        if c not in F.fns:
            continue
        ps, _ = R.paths_of(F, c)
        pats = {e[2][0][1] for p in ps or [] for e in p.ev("call") if e[1].startswith("regex::Regex::new") and e[2] and e[2][0] and e[2][0][0] == "s"}
        if len(pats) == 1:
            try:
                out[k] = re.compile(next(iter(pats)), re.UNICODE)
            except re.error:
                pass
    return out


class Case:
    def __init__(self, R, F, pats, args, calls=None):
        self.R, self.F, self.pats = R, F, pats
        self.args = args            # {argument index: value}; structs are dicts of fields
        self.calls = calls or {}    # tokens given a value
        self.ids = {}
        self.memo = {}

    def val(self, t):
        if t is None:
            raise Unknown("nothing")
        try:
            r = self.memo.get(t)
        except TypeError:
            r = None
        if r is None:
            try:
                r = (True, self.val_(t))
            except Unknown as u:
                r = (False, u)
            self.memo[t] = r
        if not r[0]:
            raise r[1]
        return r[1]

    NAMES = ("arg", "static", "role", "line", "number", "ix", "mut", "next", "fld", "deref", "mapval", "index")

    def val_(self, t):
        k = t[0]
        if k in ("i", "s"):
            return t[1]
        if k == "l":
            return [self.val(x) for x in t[1]]
        if k == "a":
            if t[1][0] in ("tuple", "array"):
                return tuple(self.val(x) for x in t[3])
            if t[1][0] == "adt":
                d = self.F.adts.get(t[1][1])
                if d and d["kind"] == "struct":
                    return {f[0]: v for f, v in zip(d["variants"][0][2], t[3])}
                return ("adt", t[1][1], t[2], tuple(t[3]))
            raise Unknown(sh(t))
        if k == "t":
            if t in self.calls:
                return self.calls[t]
            return self.tok(t, t[1])
        if k == "x":
            return self.term(t)
        if k == "it":
            return [self.val(x) for x in t[1]]
        if k in self.NAMES:
            return self.tok(("t", t, None), t)  # a reference is named by its token
        raise Unknown(sh(t))

    def tok(self, t, i):
        kind = i[0]
        if i in self.ids:
            return self.ids[i]
        if kind == "arg":
            if i[1] in self.args:
                return self.args[i[1]]
        elif kind == "deref":
            return self.val(i[1])
        elif kind == "static":
            return ("static", i[1])
        elif kind == "fld":
            b = i[1]
            v = self.val(b)
            if isinstance(v, re.Match):
                return v
            if isinstance(v, dict):
                ty = b[2] if b[0] == "t" else None
                names = self.names(ty)
                if names and i[3] < len(names) and names[i[3]] in v:
                    x = v[names[i[3]]]
                    return self.val(x) if isinstance(x, tuple) and x and x[0] in ("x", "t", "s", "i", "a") else x
                raise Unknown(sh(t))
            if isinstance(v, tuple) and v and v[0] == "some" and i[3] == 0:
                return v[1]
            if isinstance(v, tuple) and v and v[0] in ("ok", "err") and i[3] == 0:
                return v[1]
            if isinstance(v, tuple) and i[3] < len(v):
                return v[i[3]]
        elif kind in ("captures", "find"):
            m = self.pattern(i[1]).search(self.val(i[2]))
            return m if m is not None else ("none",)
        elif kind == "index":
            v, x = self.val(i[1]), self.val(i[2])
            if isinstance(v, re.Match):
                try:
                    g = v.group(x)
                except (IndexError, re.error):
                    raise Unknown("group %r" % (x,))
                if g is None:
                    raise Unknown("group %r" % (x,))
                return g
            if isinstance(v, (list, tuple)) and isinstance(x, int) and 0 <= x < len(v):
                return v[x]
            if isinstance(v, Obj) and isinstance(v.content, dict) and x in v.content:
                return v.content[x]
        elif kind == "parse":
            return self.parse(self.val(i[1]), t[2])
        elif kind == "mapval":
            w, x = self.val(i[1]), self.val(i[2])
            if isinstance(w, Obj) and isinstance(w.content, dict) and x in w.content:
                return w.content[x]
        elif kind == "map":
            return Obj("new#%s" % (i[1],), {})
        elif kind == "pushed":
            v = self.val(i[1])
            return v + [self.val(i[2])] if isinstance(v, list) else v
        elif kind == "join":
            xs, sep = self.val(i[1]), self.val(i[2])
            if isinstance(xs, (list, tuple)):
                return sep.join(text(x) for x in xs)
        elif kind == "collect":
            xs = self.val(i[2])
            if isinstance(xs, (list, tuple)):
                if t[2] and t[2][0] == "adt" and t[2][1].endswith("String"):
                    return "".join(text(x) if not isinstance(x, int) else chr(x) for x in xs)
                return list(xs)
        elif kind == "iter":
            return self.iter(i)
        elif kind == "itermap":
            return [self.call(i[2], [x]) for x in self.val(i[1])]
        elif kind == "iterq":
            xs = self.val(i[3])
            if i[2] == "count":
                return len(xs)
        elif kind == "matches":
            s, p = self.val(i[1]), self.val(i[2])
            if isinstance(p, int):
                p = chr(p)
            return [p] * s.count(p)
        elif kind == "chars":
            return [ord(c) for c in self.val(i[1])]
        elif kind in ("split_whitespace", "split_ascii_whitespace"):
            return self.val(i[1]).split()
        elif kind == "lines":
            return self.val(i[1]).splitlines()
        elif kind == "bytes":
            return list(self.val(i[1]).encode())
        elif kind in ("replace", "repeat", "split"):
            s, *xs = (self.val(x) for x in i[1:])
            xs = [chr(x) if isinstance(x, int) and kind != "repeat" else x for x in xs]
            if all(isinstance(x, (str, int)) for x in xs):
                return s * xs[0] if kind == "repeat" else s.split(xs[0]) if kind == "split" else s.replace(*xs)
        elif kind == "to_title_case":
            return " ".join(w[:1].upper() + w[1:].lower() for w in re.split(r"[\s_]+", self.val(i[1])))
        elif kind in ("to_lowercase", "to_ascii_lowercase"):
            return self.val(i[1]).lower()
        elif kind in ("to_uppercase", "to_ascii_uppercase"):
            return self.val(i[1]).upper()
        elif kind in ("trim", "trim_start", "trim_end"):
            s = self.val(i[1])
            return {"trim": s.strip, "trim_start": s.lstrip, "trim_end": s.rstrip}[kind]()
        elif kind.startswith("to_") and len(i) == 2:
            return Opaque("%s(%s)" % (kind, self.val(i[1])))
        raise Unknown(sh(t))

    def names(self, ty):
        while ty and ty[0] == "ref":
            ty = ty[2]
        if ty and ty[0] == "adt":
            d = self.F.adts.get(ty[1])
            if d and d["kind"] == "struct":
                return [f[0] for f in d["variants"][0][2]]
        return None

    def pattern(self, r):
        v = self.val(r)
        if isinstance(v, tuple) and v[0] == "static" and v[1] in self.pats:
            return self.pats[v[1]]
        raise Unknown(sh(r))

    def iter(self, i):
        op = i[2]
        if op in ("iter", "into_iter", "copied", "cloned", "by_ref"):
            src = i[1][0] if isinstance(i[1], tuple) and i[1] and not isinstance(i[1][0], str) else i[1]
            xs = self.val(src)
            if isinstance(xs, (list, tuple)):
                return list(xs)
        if op == "filter":
            out = []
            for x in self.val(i[1][0]):
                if self.call(i[1][1], [x]):
                    out.append(x)
            return out
        if op == "rev":
            return list(reversed(self.val(i[1])))
        raise Unknown(op)

    def call(self, f, xs):
        """value of a closure without captures"""
        if f[0] == "a" and f[1][0] == "closure" and not f[3]:
            key = f[1][1]
            memo = self.R.__dict__.setdefault("closures", {})
            if key not in memo:
                memo[key] = self.R.paths_of(self.F, key)[0] or []
            ps = memo[key]
            c = Case(self.R, self.F, self.pats, {n + 1: x for n, x in enumerate(xs)})
            hit = c.feasible([p for p in ps if p.kind == "return"])
            vals = {repr(c.val(p.value)): c.val(p.value) for p in hit}
            if len(vals) == 1:
                return list(vals.values())[0]
        if f[0] == "f" and f[2].endswith("to_string"):
            return text(xs[0])
        raise Unknown(sh(f))

    def parse(self, s, ty):
        n = None
        if ty and ty[0] == "adt" and ty[2] and ty[2][0]:
            n = ty[2][0][1] if ty[2][0][0] == "prim" else None
        if n == "bool":
            return ("ok", s == "true") if s in ("true", "false") else ("err", "parse")
        if n in RANGE or n in URANGE:
            if not re.fullmatch(r"[+-]?[0-9]+", s):
                return ("err", "parse")
            v = int(s)
            lo, hi = (-(2 ** RANGE[n]), 2 ** RANGE[n] - 1) if n in RANGE else (0, 2 ** URANGE[n] - 1)
            return ("ok", v) if lo <= v <= hi else ("err", "parse")
        if n in ("f64", "f32"):
            try:
                return ("ok", float(s))
            except ValueError:
                return ("err", "parse")
        raise Unknown("parse")

    def term(self, t):
        op, a = t[1], t[2:]
        if op == "disp":
            return text(self.val(a[0]))
        if op == "fmt":
            return "".join(text(self.val(x)) for x in a[0])
        if op == "fmt_debug":
            return Opaque("{:?}")
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            x, y = self.val(a[0]), self.val(a[1])
            if isinstance(x, tuple) and x and x[0] in ("none", "some"):
                raise Unknown(sh(t))
            try:
                return bool({"Lt": lambda: x < y, "Le": lambda: x <= y, "Gt": lambda: x > y, "Ge": lambda: x >= y, "Eq": lambda: x == y, "Ne": lambda: x != y}[op]())
            except TypeError:
                raise Unknown(sh(t))
        if op == "Not":
            return not self.val(a[0])
        if op in ("BitAnd", "BitOr", "BitXor"):
            x, y = self.val(a[0]), self.val(a[1])
            return {"BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}[op]()
        if op in ("Add", "Sub", "Mul"):
            x, y = self.val(a[0]), self.val(a[1])
            if isinstance(x, int) and isinstance(y, int):
                return int(x) + int(y) if op == "Add" else int(x) - int(y) if op == "Sub" else int(x) * int(y)
        if op in ("min", "max"):
            return (min if op == "min" else max)(self.val(a[0]), self.val(a[1]))
        if op in ("as", "cast"):
            v = self.val(a[0] if op == "as" else a[-1])
            return int(v) if isinstance(v, bool) else v
        if op == "ismatch":
            return self.pattern(a[0]).search(self.val(a[1])) is not None
        if op == "contains":
            return self.val(a[1]) in self.val(a[0])
        if op == "chartest":
            v = self.val(a[1])
            ch = chr(v) if isinstance(v, int) else v
            f = {"is_whitespace": ch.isspace, "is_alphabetic": ch.isalpha, "is_alphanumeric": ch.isalnum, "is_uppercase": ch.isupper, "is_lowercase": ch.islower}.get(a[0])
            if f:
                return f()
        if op == "has":
            w, x = self.val(a[0]), self.val(a[1])
            if isinstance(w, Obj) and isinstance(w.content, dict):
                return x in w.content
            raise Unknown(sh(t))
        if op == "len":
            v = self.val(a[0])
            if isinstance(v, Obj) and v.content is not None:
                v = v.content
            if isinstance(v, str):
                return len(v.encode())
            if isinstance(v, (list, tuple, dict)):
                return len(v)
        if op == "discr":
            return self.discr(self.val(a[0]))
        raise Unknown(sh(t))

    def discr(self, v):
        if isinstance(v, re.Match):
            return 1
        if isinstance(v, tuple) and v:
            if v[0] in ("none", "ok"):
                return 0
            if v[0] in ("some", "err"):
                return 1
            if v[0] == "adt":
                return v[2]
        raise Unknown("variant of %r" % (v,))

    # ------------------------------------------------------------ paths of the case
    def holds(self, kind, t, want):
        """True/False, or None when the case does not tell"""
        try:
            if kind == "tag":
                return self.discr(self.val(t)) == want
            if isinstance(t, tuple) and t and t[0] == "ne":
                return int(self.val(t[1])) not in want
            v = self.val(t)
            if isinstance(v, (bool, int)):
                return int(v) == want
            return None
        except Unknown:
            return None

    def feasible(self, ps):
        out = []
        for p in ps:
            ok = True
            for t, v in p.conds.items():
                if self.holds("cond", t, v) is False:
                    ok = False
                    break
            if ok:
                for t, v in p.tags.items():
                    if self.holds("tag", t, v) is False:
                        ok = False
                        break
            if ok:
                out.append(p)
        for p in out:
            self.note(p)
        return out

    def note(self, p):
        """remember which patterns this path has applied to which line"""
        use = self.R.__dict__.setdefault("rx", {})
        todo = list(p.conds) + list(p.tags)
        while todo:
            t = todo.pop()
            if not isinstance(t, tuple) or not t:
                continue
            if t[0] == "x" and t[1] == "ismatch" or t[0] == "t" and t[1][0] in ("captures", "find"):
                how, r, line = (t[1], t[2], t[3]) if t[0] == "x" else t[1][:3]
                try:
                    v, l = self.val(r), self.val(line)
                except Unknown:
                    continue
                if isinstance(v, tuple) and v[0] == "static" and isinstance(l, str):
                    use.setdefault((v[1], how), set()).add(l)
            elif t[0] in ("x", "t", "a"):
                todo += [x for x in (t[1] if t[0] == "t" and isinstance(t[1], tuple) else t[2:]) if isinstance(x, tuple)]


# ------------------------------------------------------------ all lines of a form
def classes():
    """the forms of lines of a timed global protocol"""
    NM = lambda f: ("field", f, [("name",)])
    B = lambda f: ("field", f, [("in", "[]")])
    N = lambda f: ("field", f, [("num",)])
    S, O = ("sp", 1), ("sp", 0)
    out = []
    for p in (0, 1):
        for r in (0, 1):
            out.append(rx.Lang("a message%s%s" % (" with a payload" if p else "", " with a reset" if r else ""), [
                O, NM("message"), "("] + [NM("payload")] * p + [")", S, "from", S, NM("sender"), S, "to", S, NM("receiver"), S, "within", S, B("left bracket"), O, N("left bound"), O, ";", O, N("right bound"), O, B("right bracket"),
                S, "using", S, NM("clock"), S, "and", S, "resetting", S, "("] + [NM("reset")] * r + [")", O, ";"]))
    out.append(rx.Lang("a choice", [O, "choice", S, "at", S, NM("role"), O, ("opt", ["{"])]))
    out.append(rx.Lang("a new branch", [O, "}", O, "or", O, "{"]))
    out.append(rx.Lang("the end of a block", [O, "}"]))
    out.append(rx.Lang("the start of a block", [O, "{"]))
    out.append(rx.Lang("a loop", [O, "rec", S, NM("loop"), O, "{"]))
    out.append(rx.Lang("a jump", [O, "continue", S, NM("loop"), O, ";"]))
    out.append(rx.Lang("the first line", ["timed", S, "global", S, "protocol", S, NM("protocol"), "(", "role", S, NM("role"), ("rep", [O, ",", O, "role", S, NM("role")]), O, ")", O, "{"]))
    return out


def uniform(R, F, pats, lists=()):
    """every pattern applied to a line does the same for all lines of that form, so that one line stands for them all;
    lists: patterns applied repeatedly to the first line"""
    cs = classes()
    for (k, how), lines in sorted(R.__dict__.get("rx", {}).items()):
        for lang in cs:
            some = sorted(l for l in lines if lang.accepts(l))
            if not some:
                continue
            R.count("patterns decided")
            tag = "pattern:%s:%s" % (short(k), lang.name)
            try:
                o = rx.outcomes(rx.Prog(pats[k].pattern), lang)
            except rx.Unsupported as u:
                R.count("patterns not decided")
                continue
            if how == "ismatch":
                o = {x is None: w for x, w in o.items()}
            ws = [w.strip() for w in o.values()]
            R.check(len(o) == 1, tag, "%s is %s for some lines and not for others: it tells %r from %r" % (short(k), "matched" if None in o or True in o else "read in one way", *(ws * 2)[:2]))
    for k in sorted(lists):
        lang = cs[-1]
        R.count("patterns decided")
        tag = "pattern:%s:list" % short(k)
        try:
            prog = rx.Prog(pats[k].pattern)
            o = rx.outcomes(prog, lang, every=(prog.first or next(iter(prog.groups.values()), "1"), "role"))
        except rx.Unsupported as u:
            R.count("patterns not decided")
            continue
        R.check(set(o) == {"all"}, tag, "%s does not find exactly the declared roles of %r" % (short(k), o.get("other", "")))


class Tree:
    """decision tree over the conditions of a set of paths"""

    def __init__(self, ps):
        self.lits = {}
        self.root = self.build([(p, self.literals(p)) for p in ps], frozenset())

    @staticmethod
    def literals(p):
        d = {("cond", t): v for t, v in p.conds.items()}
        d.update({("tag", t): v for t, v in p.tags.items()})
        return d

    def build(self, items, used):
        if len(items) <= 2:
            return ("leaf", items)
        pick = None
        for lit in items[0][1]:
            if lit in used:
                continue
            n = sum(1 for _p, d in items if lit in d)
            if pick is None or n > pick[0]:
                pick = (n, lit)
            if n == len(items):
                if len({repr(d[lit]) for _p, d in items}) > 1:
                    break
        if pick is None:
            return ("leaf", items)
        lit = pick[1]
        groups = {}
        for p, d in items:
            groups.setdefault(repr(d[lit]) if lit in d else None, []).append((p, d))
        kids = []
        for r, g in groups.items():
            kids.append((None if r is None else g[0][1][lit], r is None, self.build(g, used | {lit})))
        return ("node", lit, kids)

    def of(self, case):
        out = []
        cache = {}

        def holds(lit, v):
            k = (lit, repr(v))
            if k not in cache:
                cache[k] = case.holds(lit[0], lit[1], v)
            return cache[k]

        def walk(n):
            if n[0] == "leaf":
                for p, d in n[1]:
                    if all(holds(l, v) is not False for l, v in d.items()):
                        out.append(p)
                return
            for v, free, kid in n[2]:
                if free or holds(n[1], v) is not False:
                    walk(kid)

        walk(self.root)
        for p in out:
            case.note(p)
        return out


def outcome(p):
    """ok / err / panic of a path of a function returning Result"""
    if p.kind != "return":
        return p.kind
    v = p.value
    if v is not None and v[0] == "a" and v[1][0] == "adt":
        return "ok" if v[2] == 0 else "err"
    return "?"


# ------------------------------------------------------------ one message
class Msg:
    def __init__(self, sender="A", receiver="B", msg="hello", payload="", lb="[", l="0", r="1", rb="]", clock="x", reset="", sp=""):
        self.sender, self.receiver, self.msg, self.payload = sender, receiver, msg, payload
        self.lb, self.l, self.r, self.rb, self.clock, self.reset = lb, l, r, rb, clock, reset
        self.sp = sp

    def line(self):
        return "    %s(%s) from %s to %s within %s%s%s;%s%s%s using %s and resetting (%s);" % (
            self.msg, self.payload, self.sender, self.receiver, self.lb, self.sp, self.l, self.sp, self.r, self.rb, self.clock, self.reset)


def state(roles=("A", "B", "C"), prev=None, sizes=None, index=(0,)):
    """the tree and the clock table of a case"""
    ps = ["A", "B", "C"]
    sizes = sizes or {}

    def per_pair(name, mk):
        return Obj(name, {a: Obj("%s[%s]" % (name, a), {b: mk(a, b) for b in ps if b != a}) for a in ps})

    ix = "_".join(map(str, index))
    n = lambda k: sizes.get(k, 0)
    tree = {
        "index": list(index),
        "messages_with_payloads": Obj("payloads", {}),
        "messages": per_pair("messages", lambda a, b: Obj("messages[%s][%s]" % (a, b), ["?"] * n(a + b))),
        "first_message": per_pair("first_message", lambda a, b: "Message_%s_v_0_From%sTo%s" % (ix, a, b)),
        "last_message": per_pair("last_message", lambda a, b: "Message_%s_v_%d_From%sTo%s" % (ix, n(a + b), a, b)),
        "previous_message_wrt_clocks": Obj("prev", {a: Obj("prev[%s]" % a, dict(d)) for a, d in (prev or {}).items()}),
        "stacks": Obj("stacks", {a: Obj("stacks[%s]" % a, ["?"] * n(a)) for a in ps}),
        "first_stack": Obj("first_stack", {a: "Ordering_%s_v_0_For%s" % (ix, a) for a in ps}),
        "last_stack": Obj("last_stack", {a: "Ordering_%s_v_%d_For%s" % (ix, n(a), a) for a in ps}),
        "enums": Obj("enums", {}),
        "endpoints": Obj("endpoints", {}),
        "sub_trees": Obj("sub_trees", []),
    }
    return tree, list(roles)


def update_paths(R, F, depth=1):
    """(paths of update_messages for a part nested this deep, how to bind its arguments)"""
    key = K + "line_is_message::update_messages"
    if not R.check(key in F.fns, "update_messages:missing", "the function that handles a message line is gone"):
        return None
    f = F.fns[key]
    st = State()
    args = [("t", ("arg", n), ty) for n, ty in enumerate(f["inputs"])]
    at = [n for n, t in enumerate(f["inputs"]) if kind_of(t) == "tree"]
    if not R.check(len(at) == 1, "update_messages:arguments", "update_messages has %d parts of the protocol" % len(at)):
        return None
    if not nested(R, F, Interp(F, MODELS), st, args[at[0]], f["inputs"][at[0]], depth):
        return None
    ps, _ = R.paths_of(F, key, args=args, st=st, max_paths=60000)
    if ps is None:
        return None
    bind = {}
    for n, ty in enumerate(f["inputs"]):
        t = ty
        while t and t[0] == "ref":
            t = t[2]
        s = repr(t)
        if t == ("prim", "str") or t == ("adt", "alloc::string::String", ()):
            bind["line"] = n
        elif t[0] in ("slice",) or (t[0] == "adt" and t[1].endswith("Vec")):
            bind["roles"] = n
        elif t == ("prim", "usize"):
            bind["number"] = n
        elif t[0] == "adt" and t[1].endswith("::Tree"):
            bind["tree"] = n
        elif t[0] == "adt" and t[1].endswith("HashMap"):
            bind["clocks"] = n
        elif t[0] == "adt" and t[1].endswith("HashSet"):
            bind["payloads"] = n
    if not R.check({"line", "roles", "tree"} <= set(bind), "update_messages:arguments", "the arguments of update_messages changed: %s" % bind):
        return None
    return ps, bind


LINE = K + "process_line::process_line"
UPDATE = K + "line_is_message::update_messages"
STRING = ("adt", "alloc::string::String", ())


def kind_of(t):
    """what an argument of the line handler is"""
    while t and t[0] == "ref":
        t = t[2]
    if t and t[0] == "adt" and t[1].endswith("::GlobalElements"):
        return "global"
    if t and t[0] == "adt" and t[1].endswith("::Tree"):
        return "tree"
    if t == ("prim", "usize"):
        return "offset"
    return "lines"


def nested(R, F, I, st, arg, t, depth):
    """the part in this argument is named by `depth` numbers"""
    c, p = I.deref_loc(st, arg)
    while t[0] == "ref":
        t = t[2]
    fs = [x[0] for x in F.adts[t[1]]["variants"][0][2]]
    if not R.check("index" in fs, "process_line:index", "the parts of a protocol are not numbered any more: %s" % fs):
        return False
    I.store(st, c, tuple(p) + (("f", fs.index("index")),), ("l", tuple(("t", ("ix", i), ("prim", "i32")) for i in range(depth))))
    return True


class Lines:
    """the paths of process_line that a situation can take"""

    def __init__(self, R, F, **kw):
        self.R, self.F, self.kw, self.made = R, F, kw, {}
        r = line_paths(R, F, **kw)
        self.ok = r is not None
        if self.ok:
            self.ps, self.bind, _ = r
            self.tree = Tree(self.ps)
            # a loop over the letters of the line is not followed for all lines at once
            self.letters = any(by_letter(e[1]) for p in self.ps for e in p.ev("next"))

    def of(self, case):
        if not self.letters:
            return self.tree.of(case)
        k = case.ids[("line", 0)], case.ids[("number", 0)]
        if k not in self.made:
            r = line_paths(self.R, self.F, text=k[0], number=k[1], **self.kw)
            self.made[k] = Tree(r[0]) if r is not None else None
        return self.made[k].of(case) if self.made[k] is not None else []


def by_letter(v):
    todo = [v]
    while todo:
        v = todo.pop()
        if isinstance(v, tuple) and v:
            if v[0] == "t" and isinstance(v[1], tuple) and v[1] and v[1][0] in ("chars", "bytes", "char_indices"):
                return True
            todo += [x for x in v if isinstance(x, tuple)]
    return False


def line_paths(R, F, roles=3, head=False, depth=None, text=None, number=None):
    """(paths of process_line on one line, its arguments, interpreter); head: the line that names the roles, with
    an empty tree and `roles` roles found in it; depth: how many numbers name the part the line belongs to"""
    if not R.check(LINE in F.fns and UPDATE in F.fns, "process_line:missing", "the function that handles a line is gone"):
        return None
    f = F.fns[LINE]
    kinds = [kind_of(t) for t in f["inputs"]]
    if not R.check(sorted(kinds) == ["global", "lines", "offset", "tree", "tree"], "process_line:arguments", "the arguments of process_line changed: %s" % kinds):
        return None
    from interp import UNIT
    st = State()
    I = Interp(F, MODELS)
    args = [("t", ("arg", n), ty) for n, ty in enumerate(f["inputs"])]
    c, p = I.deref_loc(st, args[kinds.index("lines")])
    I.store(st, c, p, ("it", (("a", ("tuple",), 0, (("t", ("number", 0), ("prim", "usize")), ("t", ("line", 0), STRING)) if text is None else (("i", number), ("s", text))),), "lines"))
    g = kinds.index("global")
    c, p = I.deref_loc(st, args[g])
    t = f["inputs"][g]
    while t[0] == "ref":
        t = t[2]
    names = [x[0] for x in F.adts[t[1]]["variants"][0][2]]
    if not R.check({"roles", "loops", "opening_brackets", "closing_brackets"} <= set(names), "process_line:state", "the state of the line handler changed: %s" % names):
        return None
    tokens = tuple(("t", ("role", i), STRING) for i in range(roles))
    I.store(st, c, tuple(p) + (("f", names.index("roles")),), ("l", () if head else tokens))
    ts = [n for n, k in enumerate(kinds) if k == "tree"]
    mods = None
    if depth:
        if not nested(R, F, I, st, args[ts[1]], f["inputs"][ts[1]], depth):
            return None
    if text is not None:
        mods = MODELS.copy()
        texts.install(mods)
    if head:
        mods = mods or MODELS.copy()

        def found(I, st, a, c):
            st.event("regex", "captures_iter", I.strip(st, a[0]), I.strip(st, a[1]), c.site)
            return [(st, ("it", tuple(("t", ("cap", i), None) for i in range(roles))))]

        def extract(I, st, a, c):
            v = I.strip(st, a[0])
            if v is None or v[0] != "t" or v[1][0] != "cap":
                return None
            return [(st, ("a", ("tuple",), 0, (("t", ("capall", v[1][1]), ("prim", "str")), ("a", ("array",), 0, (("t", ("role", v[1][1]), ("prim", "str")),)))))]

        def sort(I, st, a, c):
            st.event("sort", I.strip(st, a[0]), c.site)
            return [(st, UNIT)]

        mods.pats.insert(0, (re.compile(r"std::slice::<impl \[T\]>::sort\w*\Z"), sort))
        mods.pats.insert(0, (re.compile(r"regex::Regex::captures_iter\Z"), found))
        mods.pats.insert(0, (re.compile(r"regex::Captures::<.*>::extract\Z"), extract))

        def group(I, st, a, c):
            """the group of a match that names the role; any other is not told"""
            v, k = I.strip(st, a[0]), I.strip(st, a[1]) if len(a) > 1 else None
            if v is None or v[0] != "t" or v[1][0] not in ("cap", "role"):
                return None
            if c.nice.endswith("::as_str"):
                return [(st, v)] if v[1][0] == "role" else None
            if v[1][0] != "cap" or k is None or k[0] not in ("i", "s") or k == ("i", 0):
                return None
            t = ("t", ("role", v[1][1]), ("prim", "str"))
            return [(st, t if c.nice.endswith("::index") else ("a", ("adt", "core::option::Option", ()), 1, (t,)))]

        texts.first(mods, r"(std::ops::Index::index|<regex::(string::)?Captures.*>::index|regex::(string::)?(Captures|Match)::<.*>::(get|name|as_str))\Z", group)
        c, p = I.deref_loc(st, args[ts[1]])
        t = f["inputs"][ts[1]]
        while t[0] == "ref":
            t = t[2]
        for n, x in enumerate(F.adts[t[1]]["variants"][0][2]):
            if x[2][0] == "adt" and x[2][1].endswith("HashMap"):
                I.store(st, c, tuple(p) + (("f", n),), ("t", ("map", "main." + x[0]), x[2]))
    ps, I = R.paths_of(F, LINE, args=args, st=st, mods=mods, opaque=[UPDATE, LINE])
    if ps is None:
        return None
    return ps, {"global": g, "offset": kinds.index("offset"), "parent": ts[0], "tree": ts[1]}, I


def line_case(R, F, pats, bind, text, number, o, c, offset, loops=None, tree=None, parent=None, roles=("A", "B", "C")):
    g = {"roles": list(roles), "loops": Obj("loops", dict(loops or {})), "opening_brackets": o, "closing_brackets": c, "clocks": Obj("clocks", {}), "payloads": Obj("payload types", {}), "output_path": "out_"}
    case = Case(R, F, pats, {bind["global"]: g, bind["offset"]: offset, bind["tree"]: tree or state()[0], bind["parent"]: parent or state()[0]})
    case.ids = {("line", 0): text, ("number", 0): number}
    case.ids.update({("role", i): r for i, r in enumerate(roles)})
    case.ids.update({("ix", i): n for i, n in enumerate((tree or {"index": [0]})["index"])})
    return case


def inner_tree(F, case, p, e):
    """{field: value} of the tree handed to a recursive call, {(container, key): value} written before it"""
    best = None
    for b in p.ev("before"):
        if b[1] == e[3] and b[3] is not None and b[3][0] == "a" and b[3][1][0] == "adt" and b[3][1][1].endswith("::Tree"):
            names = [x[0] for x in F.adts[b[3][1][1]]["variants"][0][2]]
            best = dict(zip(names, b[3][3]))
    return best


def case_of(R, F, pats, bind, m, tree, roles):
    args = {bind["line"]: m if isinstance(m, str) else m.line(), bind["roles"]: roles, bind["tree"]: tree}
    if "number" in bind:
        args[bind["number"]] = 7
    if "clocks" in bind:
        args[bind["clocks"]] = Obj("clocks", {})
    if "payloads" in bind:
        args[bind["payloads"]] = Obj("payload types", {})
    case = Case(R, F, pats, args)
    case.ids = {("ix", i): n for i, n in enumerate(tree["index"])}
    return case


def final(c, p):
    """{(container, key): value or None when removed} of what the path wrote into maps"""
    out = {}
    for cell, v in p.st.mem.items():
        if not (isinstance(cell, tuple) and cell and cell[0] == "M"):
            continue
        w, k = cell[1], cell[2]
        try:
            o, x = c.val(w), c.val(k)
        except Unknown:
            continue
        if not isinstance(o, Obj):
            continue
        gone = p.st.mem.get(("mapval", w, k))
        if gone is not None and gone[1] == 0:
            out[(o, x)] = None
        elif v is not None and v == ("t", ("mapval", w, k), v[2] if v[0] == "t" else None):
            if gone is not None:
                out[(o, x)] = c.val(v)
        else:
            try:
                out[(o, x)] = c.val(v)
            except Unknown:
                out[(o, x)] = Unknown
    return out
