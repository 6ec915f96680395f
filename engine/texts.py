"""Text functions of the standard library and of `regex` on texts that are known in full (constant folding).

Used where the analysed code takes a text apart and the situation under analysis fixes that text up to the identifiers
in it.  A function is folded only if every text it looks at is known; otherwise the caller falls through to the
opaque treatment of the ordinary models."""
import re

from interp import UNIT

SOME = lambda v: ("a", ("adt", "core::option::Option", ()), 1, (v,))
NONE = ("a", ("adt", "core::option::Option", ()), 0, ())
S = lambda x: ("s", x)
PAIR = lambda *v: ("a", ("tuple",), 0, tuple(v))


def known(v):
    """the text of a value, or None"""
    if v is None:
        return None
    if v[0] == "s":
        return v[1]
    if v[0] == "x" and v[1] == "disp":
        return known(v[2])
    if v[0] == "x" and v[1] == "fmt":
        xs = [known(x) for x in v[2]]
        return None if None in xs else "".join(xs)
    return None


CLASSES = {"alpha": "a-zA-Z", "alnum": "a-zA-Z0-9", "digit": "0-9", "lower": "a-z", "upper": "A-Z", "word": r"\w", "space": r"\s", "punct": r"!-/:-@\[-`{-~", "blank": " \t"}


def pattern(p):
    """the pattern in the syntax of Python's matcher (both try alternatives in order, leftmost first), or None"""
    p = re.sub(r"\[:(\w+):\]", lambda m: CLASSES.get(m.group(1), "?!"), p)
    p = p.replace(r"\z", r"\Z").replace(r"\A", r"\A").replace("(?<", "(?P<").replace("(?P<=", "(?<=").replace("(?P<!", "(?<!")
    try:
        return re.compile(p)
    except (re.error, OverflowError):
        return None


def expand(t, m):
    """a replacement text with $name, ${name} references"""
    def one(x):
        n = x.group(1) or x.group(2)
        if x.group(0) == "$$":
            return "$"
        try:
            return m.group(int(n) if n.isdigit() else n) or ""
        except (IndexError, error):
            return ""

    error = re.error
    return re.sub(r"\$\$|\$\{([^}]*)\}|\$(\w+)", one, t)


def first(mods, rx, m):
    """a model tried before all others for these functions"""
    rx = re.compile(rx)

    def go(I, st, a, c):
        r = m(I, st, a, c)
        if r is None:
            nxt = old(c.nice)
            r = nxt(I, st, a, c) if nxt is not None else None
        return r

    exact, pats = dict(mods.exact), list(mods.pats)

    def old(nice):
        return exact.get(nice) or next((f for p, f in pats if p.match(nice)), None)

    for n in [n for n in mods.exact if rx.match(n)]:
        mods.exact[n] = go
    mods.pats.insert(0, (rx, go))


def install(mods):
    """adds the folding models to a copy of the models"""

    def P(rx, f):
        first(mods, rx + r"\Z", f)

    def txt(I, st, v):
        return known(I.strip(st, v))

    # ------------------------------------------------------------------ separators: a char, a text, several chars, a test
    def separator(I, st, v):
        """-> function from a text to the first match (start, end) at or after a position; None if unknown"""
        w = I.strip(st, v)
        while w is not None and w[0] == "r":
            w = I.strip(st, w)
        if w is None:
            return None
        if w[0] == "i":
            return lambda s, k: span(s.find(chr(w[1]), k), 1)
        x = known(w)
        if x is not None:
            return (lambda s, k: span(s.find(x, k), len(x))) if x else None
        items = w[1] if w[0] == "l" else w[3] if w[0] == "a" and w[1][0] == "array" else None
        if items is not None:
            cs = [I.strip(st, y) for y in items]
            if any(y is None or y[0] != "i" for y in cs):
                return None
            cs = {chr(y[1]) for y in cs}
            return lambda s, k: next(((i, i + 1) for i in range(k, len(s)) if s[i] in cs), None)
        if w[0] in ("f",) or (w[0] == "a" and w[1][0] == "closure"):
            memo = {}

            def test(ch):
                if ch not in memo:
                    outs = I.apply(st, w, [("i", ord(ch))], ("prim", "bool"), ("fold",))
                    memo[ch] = outs[0][1] if len(outs) == 1 else None
                    if memo[ch] is None or memo[ch][0] != "i":
                        raise LookupError
                return bool(memo[ch][1])

            return lambda s, k: next(((i, i + 1) for i in range(k, len(s)) if test(s[i])), None)
        return None

    def span(i, n):
        return None if i < 0 else (i, i + n)

    def cut(s, sep, limit=None):
        out, k = [], 0
        while limit is None or len(out) + 1 < limit:
            m = sep(s, k)
            if m is None:
                break
            out.append(s[k : m[0]])
            k = m[1]
        return out + [s[k:]]

    def all_of(s, sep):
        out, k = [], 0
        while True:
            m = sep(s, k)
            if m is None:
                return out
            out.append(m)
            k = m[1]

    def fold(f):
        """f(I, st, text, args, c) -> value or None"""
        def m(I, st, a, c):
            s = txt(I, st, a[0])
            if s is None:
                return None
            try:
                v = f(I, st, s, a[1:], c)
            except LookupError:
                v = None
            return None if v is None else [(st, v)]
        return m

    STR = r"(core|std|alloc)::str::<impl str>::"

    def replace(I, st, s, a, c):
        sep, new = separator(I, st, a[0]), txt(I, st, a[1])
        if sep is None or new is None:
            return None
        n = None
        if c.nice.endswith("replacen"):
            k = I.strip(st, a[2])
            if k is None or k[0] != "i":
                return None
            n = k[1] + 1
        return S(new.join(cut(s, sep, n)))

    P(STR + "replacen?", fold(replace))

    def split(I, st, s, a, c):
        op = c.nice.rsplit("::", 1)[1]
        if op == "split_whitespace":
            xs = s.split()
        elif op == "lines":
            xs = s.splitlines()
        elif op == "chars":
            return ("it", tuple(("i", ord(x)) for x in s))
        elif op == "char_indices":
            return ("it", tuple(PAIR(("i", i), ("i", ord(x))) for i, x in enumerate(s)))
        else:
            limit = None
            if op in ("splitn", "rsplitn"):
                k = I.strip(st, a[0])
                if k is None or k[0] != "i":
                    return None
                limit, a = k[1], a[1:]
            sep = separator(I, st, a[0])
            if sep is None:
                return None
            ms = all_of(s, sep)
            if op == "split_once":
                return NONE if not ms else SOME(PAIR(S(s[: ms[0][0]]), S(s[ms[0][1] :])))
            if op == "rsplit_once":
                return NONE if not ms else SOME(PAIR(S(s[: ms[-1][0]]), S(s[ms[-1][1] :])))
            if op == "rsplitn":
                xs, k = [], len(s)
                for b, e in reversed(ms):
                    if len(xs) + 1 >= limit:
                        break
                    xs.append(s[e:k])
                    k = b
                xs.append(s[:k])
            else:
                xs = cut(s, sep, limit)
                if op == "rsplit":
                    xs = xs[::-1]
                if op == "split_terminator" and xs and not xs[-1]:
                    xs = xs[:-1]
        return ("it", tuple(S(x) for x in xs))

    P(STR + "(split|rsplit|splitn|rsplitn|split_once|rsplit_once|split_terminator|split_whitespace|lines|chars|char_indices)", fold(split))

    def edges(I, st, s, a, c):
        op = c.nice.rsplit("::", 1)[1]
        if op in ("trim", "trim_start", "trim_end"):
            return S({"trim": s.strip, "trim_start": s.lstrip, "trim_end": s.rstrip}[op]())
        sep = separator(I, st, a[0])
        if sep is None:
            return None
        first, ms = sep(s, 0), all_of(s, sep)
        start = first is not None and first[0] == 0
        end = bool(ms) and ms[-1][1] == len(s)
        if op == "starts_with":
            return ("i", int(start))
        if op == "ends_with":
            return ("i", int(end))
        if op == "contains":
            return ("i", int(first is not None))
        if op == "strip_prefix":
            return SOME(S(s[first[1] :])) if start else NONE
        if op == "strip_suffix":
            return SOME(S(s[: ms[-1][0]])) if end else NONE
        if op == "find":
            return SOME(("i", first[0])) if first else NONE
        if op == "rfind":
            return SOME(("i", ms[-1][0])) if ms else NONE
        if op in ("trim_matches", "trim_start_matches", "trim_end_matches"):
            if op != "trim_end_matches":
                while sep(s, 0) and sep(s, 0)[0] == 0:
                    s = s[sep(s, 0)[1] :]
            if op != "trim_start_matches":
                while all_of(s, sep) and all_of(s, sep)[-1][1] == len(s):
                    s = s[: all_of(s, sep)[-1][0]]
            return S(s)
        return None

    P(STR + "(trim|trim_start|trim_end|starts_with|ends_with|contains|strip_prefix|strip_suffix|find|rfind|trim_matches|trim_start_matches|trim_end_matches)", fold(edges))
    P(STR + "to_(ascii_)?lowercase", fold(lambda I, st, s, a, c: S(s.lower())))
    P(STR + "to_(ascii_)?uppercase", fold(lambda I, st, s, a, c: S(s.upper())))
    P("(" + STR + "|std::string::String::)is_empty", fold(lambda I, st, s, a, c: ("i", int(not s))))
    P("(" + STR + "|std::string::String::)len", fold(lambda I, st, s, a, c: ("i", len(s.encode()))))

    def retain(I, st, a, c):
        c1, p1 = I.deref_loc(st, a[0])
        v = I.load(st, c1, p1)
        while v is not None and v[0] == "r":
            c1, p1 = v[1], v[2]
            v = I.load(st, c1, p1)
        s = known(v)
        if s is None:
            return None
        out = []
        for ch in s:
            r = I.apply(st, a[1], [("i", ord(ch))], ("prim", "bool"), c.site)
            if len(r) != 1 or r[0][1] is None or r[0][1][0] != "i":
                return None
            if r[0][1][1]:
                out.append(ch)
        I.store(st, c1, p1, S("".join(out)))
        return [(st, UNIT)]

    P("std::string::String::retain", retain)

    def place(I, st, v):
        c1, p1 = I.deref_loc(st, v)
        x = I.load(st, c1, p1)
        while x is not None and x[0] == "r":
            c1, p1 = x[1], x[2]
            x = I.load(st, c1, p1)
        return c1, p1, known(x)

    def char_or_text(I, st, v):
        w = I.strip(st, v)
        return chr(w[1]) if w is not None and w[0] == "i" else known(w)

    def push(I, st, a, c):
        c1, p1, s = place(I, st, a[0])
        x = char_or_text(I, st, a[1])
        if s is None or x is None:
            return None
        I.store(st, c1, p1, S(s + x))
        return [(st, UNIT)]

    P("std::string::String::(push|push_str)", push)

    def pop(I, st, a, c):
        c1, p1, s = place(I, st, a[0])
        if s is None:
            return None
        I.store(st, c1, p1, S(s[:-1]))
        return [(st, SOME(("i", ord(s[-1]))) if s else NONE)]

    P("std::string::String::pop", pop)

    base_collect = mods.exact["std::iter::Iterator::collect"]

    def collect(I, st, a, c):
        w = I.strip(st, a[0])
        if c.dty and c.dty[0] == "adt" and c.dty[1] == "alloc::string::String" and w is not None and w[0] == "it":
            xs = [char_or_text(I, st, x) for x in w[1]]
            if None not in xs:
                return [(st, S("".join(xs)))]
        return base_collect(I, st, a, c)

    mods.exact["std::iter::Iterator::collect"] = mods.exact["std::iter::FromIterator::from_iter"] = collect

    base_index = mods.exact["std::ops::Index::index"]

    def index(I, st, a, c):
        s, r = txt(I, st, a[0]), I.strip(st, a[1])
        if s is not None and s.isascii() and r is not None and r[0] == "a" and "ops::range" in str(r[1]):
            kind = r[1][1].rsplit("::", 1)[1]
            b = [y[1] if y and y[0] == "i" else None for y in r[3]]
            if None not in b and kind in ("Range", "RangeFrom", "RangeTo", "RangeFull", "RangeInclusive"):
                b = b[:2]
                x = s if kind == "RangeFull" else s[b[0] :] if kind == "RangeFrom" else s[: b[0]] if kind == "RangeTo" else s[b[0] : b[1] + (kind == "RangeInclusive")]
                cell = ("H", st.fresh())
                st.mem[cell] = S(x)
                return [(st, ("r", cell, ()))]
        return base_index(I, st, a, c)

    mods.exact["std::ops::Index::index"] = index

    # ------------------------------------------------------------------ regular expressions
    def new(I, st, a, c):
        p = txt(I, st, a[0])
        if p is None:
            return None
        return [(st, ("a", ("adt", "core::result::Result", ()), 0, (("t", ("regex", p), None),)))]

    P("regex::Regex::new", new)

    def rx(I, st, v):
        w = I.strip(st, v)
        return pattern(w[1][1]) if w is not None and w[0] == "t" and w[1][0] == "regex" else None

    def groups(m):
        return ("l", tuple(S(x or "") for x in (m.group(0),) + m.groups()))

    def found(m, k=0):
        return ("t", ("match", m.group(k), m.start(k), m.end(k)), None)

    def of_match(I, st, a, c):
        w = I.strip(st, a[0])
        if w is None:
            return None
        op = c.nice.rsplit("::", 1)[1]
        if w[0] == "t" and w[1][0] == "match":
            return [(st, S(w[1][1]) if op == "as_str" else ("i", w[1][2 if op == "start" else 3]))]
        return [(st, w)] if op == "as_str" and known(w) is not None else None

    P("regex::(string::)?Match::<.*>::(as_str|start|end)", of_match)

    def search(I, st, a, c):
        r, s = rx(I, st, a[0]), txt(I, st, a[1])
        if r is None or s is None:
            return None
        op = c.nice.rsplit("::", 1)[1]
        if op == "is_match":
            return [(st, ("i", int(r.search(s) is not None)))]
        if op in ("captures", "find"):
            m = r.search(s)
            return [(st, NONE if m is None else SOME(groups(m) if op == "captures" else found(m)))]
        return [(st, ("it", tuple(groups(m) if op == "captures_iter" else found(m) for m in r.finditer(s))))]

    P("regex::Regex::(is_match|captures|find|captures_iter|find_iter)", search)

    def rsplit(I, st, a, c):
        r, s = rx(I, st, a[0]), txt(I, st, a[1])
        if r is None or s is None or r.groups:
            return None
        return [(st, ("it", tuple(S(x) for x in r.split(s))))]

    P("regex::Regex::split", rsplit)

    def rreplace(I, st, a, c):
        r, s = rx(I, st, a[0]), txt(I, st, a[1])
        if r is None or s is None:
            return None
        n = 1 if c.nice.endswith("::replace") else 0
        w = I.strip(st, a[-1])
        t = known(w)
        if t is not None:
            return [(st, S(r.sub(lambda m: expand(t, m), s, count=n)))]
        if w is not None and (w[0] == "f" or (w[0] == "a" and w[1][0] == "closure")):
            out, k = [], 0
            for i, m in enumerate(r.finditer(s)):
                if n and i == n:
                    break
                cell = ("H", st.fresh())
                st.mem[cell] = groups(m)
                v = I.apply(st, a[-1], [("r", cell, ())], None, c.site)
                x = known(I.strip(v[0][0], v[0][1])) if len(v) == 1 else None
                if x is None:
                    return None
                out += [s[k : m.start()], x]
                k = m.end()
            return [(st, S("".join(out) + s[k:]))]
        return None

    P("regex::Regex::(replace|replace_all)", rreplace)
    P("regex::(string::)?Captures::<.*>::len", lambda I, st, a, c: [(st, ("i", len(I.strip(st, a[0])[1])))] if (I.strip(st, a[0]) or "?")[0] == "l" else None)

    def get(I, st, a, c):
        g, i = I.strip(st, a[0]), I.strip(st, a[1])
        if g is None or g[0] != "l" or i is None or i[0] != "i":
            return None
        return [(st, SOME(g[1][i[1]]) if i[1] < len(g[1]) else NONE)]

    P("regex::(string::)?Captures::<.*>::get", get)
    mods.cache = {}
    return mods
