"""Regular expressions of the analysed source, decided over whole classes of lines.

A class of lines is a small automaton whose transitions read characters and which marks where each field begins and
ends.  A pattern is compiled to the usual program of a backtracking matcher (leftmost match, earlier alternatives
first), kept here as an ordered list of threads.  `outcomes` explores the product of the two for *every* line of the
class: the result is the set of things the pattern can do on a line of the class, i.e. no match, or which fields its
groups are.  No line is sampled and no matcher of the analysed program is run."""
import re

try:
    import re._parser as sp
    import re._constants as sc
except ImportError:  # older Pythons
    import sre_parse as sp
    import sre_constants as sc


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ classes of lines
LETTER = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGIT = frozenset("0123456789")
WORD = LETTER | DIGIT | {"_"}


class Lang:
    """automaton of a class: edges[state] = [(set of characters or None, mark or None, target)]"""

    def __init__(self, name, items):
        self.name = name
        self.edges = [[]]
        end = self.add(0, items)
        self.final = end

    def new(self):
        self.edges.append([])
        return len(self.edges) - 1

    def step(self, s, chars=None, mark=None, to=None):
        to = self.new() if to is None else to
        self.edges[s].append((chars, mark, to))
        return to

    def add(self, s, items):
        for it in items:
            s = self.one(s, it)
        return s

    def one(self, s, it):
        if isinstance(it, str):
            for c in it:
                s = self.step(s, frozenset(c))
            return s
        k = it[0]
        if k == "sp":  # at least it[1] blanks
            for _ in range(it[1]):
                s = self.step(s, frozenset(" "))
            s = self.step(s)
            self.step(s, frozenset(" "), to=s)
            return self.step(s)
        if k == "field":
            s = self.step(s, mark=(it[1], 0))
            s = self.add(s, it[2])
            return self.step(s, mark=(it[1], 1))
        if k == "name":
            s = self.step(s, LETTER)
            self.step(s, WORD, to=s)
            return self.step(s)
        if k == "num":
            s = self.step(s, DIGIT)
            self.step(s, DIGIT, to=s)
            return self.step(s)
        if k == "in":
            return self.step(s, frozenset(it[1]))
        if k == "opt":
            e = self.add(s, it[1])
            self.step(s, to=e)
            return e
        if k == "rep":  # any number of times
            s = self.step(s)
            e = self.add(s, it[1])
            self.step(e, to=s)
            return self.step(s)
        raise Unsupported(k)

    def accepts(self, line):
        cur = self.close({0})
        for c in line:
            cur = self.close({t for s in cur for ch, _, t in self.edges[s] if ch is not None and c in ch})
        return self.final in cur

    def close(self, ss):
        ss, todo = set(ss), list(ss)
        while todo:
            s = todo.pop()
            for ch, _, t in self.edges[s]:
                if ch is None and t not in ss:
                    ss.add(t)
                    todo.append(t)
        return ss

    def chars(self):
        return frozenset(c for l in self.edges for ch, _, _ in l if ch for c in ch)


# ------------------------------------------------------------------ patterns
class Prog:
    """instructions: ("c", test) | ("split", a, b) | ("jmp", a) | ("save", group, side) | ("at", which) | ("match",)"""

    def __init__(self, pattern):
        self.code = []
        try:
            tree = sp.parse(pattern)
        except re.error as e:
            raise Unsupported(str(e))
        if tree.state.flags & ~(sc.SRE_FLAG_UNICODE | sc.SRE_FLAG_VERBOSE):
            raise Unsupported("flags")
        names = {n: g for g, n in tree.state.groupdict.items()}
        # capturing groups that are looked at: the named ones, or the first
        self.groups = {n: names[n] for n in names} or ({1: "1"} if tree.state.groups > 1 else {})
        self.first = self.groups.get(1)
        self.seq(tree)
        self.code.append(("match",))

    def emit(self, *i):
        self.code.append(i)
        return len(self.code) - 1

    def seq(self, items):
        for op, av in items:
            self.item(op, av)

    def item(self, op, av):
        if op in (sc.LITERAL, sc.NOT_LITERAL):
            self.emit("c", (op is sc.NOT_LITERAL, (("l", chr(av)),)))
        elif op is sc.ANY:
            self.emit("c", (True, (("l", "\n"),)))
        elif op is sc.IN:
            neg, l = False, []
            for o, a in av:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    l.append(("l", chr(a)))
                elif o is sc.RANGE:
                    l.append(("r", chr(a[0]), chr(a[1])))
                elif o is sc.CATEGORY:
                    l.append(("k", str(a)))
                else:
                    raise Unsupported(str(o))
            self.emit("c", (neg, tuple(l)))
        elif op is sc.SUBPATTERN:
            g, add, sub, p = av
            if add or sub:
                raise Unsupported("flags")
            if g is not None and g in self.groups:
                self.emit("save", self.groups[g], 0)
                self.seq(p)
                self.emit("save", self.groups[g], 1)
            else:
                self.seq(p)
        elif op is sc.BRANCH:
            ends = []
            for n, p in enumerate(av[1]):
                if n + 1 < len(av[1]):
                    i = self.emit("split", None, None)
                    self.seq(p)
                    ends.append(self.emit("jmp", None))
                    self.code[i] = ("split", i + 1, len(self.code))
                else:
                    self.seq(p)
            for e in ends:
                self.code[e] = ("jmp", len(self.code))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            greedy = op is sc.MAX_REPEAT

            def split(i, body, out):
                self.code[i] = ("split", body, out) if greedy else ("split", out, body)

            if lo > 20 or (hi is not sc.MAXREPEAT and hi > 20):
                raise Unsupported("large repetition")
            for _ in range(lo):
                self.seq(p)
            if hi is sc.MAXREPEAT:
                i = self.emit("split", None, None)
                self.seq(p)
                self.emit("jmp", i)
                split(i, i + 1, len(self.code))
            else:
                heads = []
                for _ in range(hi - lo):
                    heads.append(self.emit("split", None, None))
                    self.seq(p)
                for i in heads:
                    split(i, i + 1, len(self.code))
        elif op is sc.AT:
            which = {sc.AT_BEGINNING: "begin", sc.AT_BEGINNING_STRING: "begin", sc.AT_END: "end", sc.AT_END_STRING: "end", sc.AT_BOUNDARY: "edge", sc.AT_NON_BOUNDARY: "inside"}.get(av)
            if which is None:
                raise Unsupported(str(av))
            self.emit("at", which)
        else:
            raise Unsupported(str(op))


def test(t, c):
    neg, l = t
    r = False
    for x in l:
        if x[0] == "l":
            r = r or c == x[1]
        elif x[0] == "r":
            r = r or x[1] <= c <= x[2]
        else:
            k = x[1].rsplit("_", 1)[-1]
            b = {"WORD": c == "_" or c.isalnum(), "DIGIT": c.isdigit(), "SPACE": c.isspace()}.get(k)
            if b is None:
                raise Unsupported(x[1])
            if "_NOT_" in x[1]:
                b = not b
            r = r or b
    return r != neg


def isword(c):
    return c is not None and (c == "_" or c.isalnum())


def outcomes(prog, lang, every=None, limit=400000):
    """{outcome: a line of the class}; an outcome is None (no match) or a tuple of (group, field it is,
    or the marks at its ends).  With `every` (a group and a field), the pattern is applied repeatedly
    and the outcome is whether the group is exactly the fields of that name, each once, in order ("all" / "other")."""
    code = prog.code
    every, field = every or (None, None)
    groups = sorted(prog.groups.values())
    ix = {g: n for n, g in enumerate(groups)}
    # characters the two automata cannot tell apart
    tests = {i[1] for i in code if i[0] == "c"}
    sets = {ch for l in lang.edges for ch, _, _ in l if ch}
    reps = {}
    for c in sorted(lang.chars()):
        sig = (tuple(test(t, c) for t in sorted(tests)), tuple(c in s for s in sorted(sets, key=sorted)), isword(c))
        reps.setdefault(sig, c)
    atoms = sorted(reps.values())

    def closure(threads, label, prev, nxt):
        """-> (threads waiting for a character, tags of the match reached or None); threads: [(pc, tags)]"""
        out, seen = [], set()
        hit = None
        for pc, tags in threads:
            st = [(pc, tags)]
            while st:
                pc, tags = st.pop()
                if pc in seen:
                    continue
                seen.add(pc)
                i = code[pc]
                if i[0] == "c":
                    out.append((pc, tags))
                elif i[0] == "jmp":
                    st.append((i[1], tags))
                elif i[0] == "split":
                    st.append((i[2], tags))
                    st.append((i[1], tags))
                elif i[0] == "save":
                    k = 2 * ix[i[1]] + i[2]
                    st.append((pc + 1, tags[:k] + (label,) + tags[k + 1:]))
                elif i[0] == "at":
                    edge = isword(prev) != isword(nxt)
                    if {"begin": prev is None, "end": nxt is None, "edge": edge, "inside": not edge}[i[1]]:
                        st.append((pc + 1, tags))
                elif i[0] == "match":
                    hit = tags
                    return out, hit
        return out, hit

    empty = (None,) * (2 * len(groups))

    def name(tags):
        out = []
        for g, n in ix.items():
            a, b = tags[2 * n], tags[2 * n + 1]
            if a is None or b is None:
                out.append((g, None))
                continue
            fs = sorted(f for f, side in a if side == 0 and (f, 1) in b)
            # a whole field, or a part of the line that is none
            out.append((g, fs[0] if fs else (tuple(sorted(a)), tuple(sorted(b)))))
        return tuple(out)

    # state: (state of the class, marks since the last character, threads, best match or None, last character, seen)
    start = (0, frozenset(), (), None, None, ("ok", None, None))
    todo, done, parent = [start], {start}, {}
    res = {}

    def word(s):
        l = []
        while s in parent:
            s, c = parent[s]
            if c:
                l.append(c)
        return "".join(reversed(l))

    def advance(label, threads, best, prev, nxt, track):
        """the position before character nxt (None at the end) -> threads after reading it, best, tracking"""
        if track[0] == "other":
            return [], None, track
        while True:
            l = list(threads)
            if best is None:
                l.append((0, empty))
            l, hit = closure(l, label, prev, nxt)
            if hit is not None:
                best = hit
            out = [] if nxt is None else [(pc + 1, tags) for pc, tags in l if test(code[pc][1], nxt)]
            if every is None or best is None or out:
                return out, best, track
            # this match is complete: the search goes on behind it
            n = ix[every]
            x, y = best[2 * n], best[2 * n + 1]
            if hit is None or track[:2] != ("ok", "ended") or not x or not y or (field, 0) not in x or (field, 1) not in y:
                # it ended before this position, or is not the field that has just been read
                return [], None, ("other", None, None)
            track, threads, best = ("ok", None, None), [], None

    while todo:
        s = todo.pop()
        if len(done) > limit:
            raise Unsupported("too many states")
        q, label, threads, best, prev, track = s
        if q == lang.final:
            t2, b2, tr = advance(label, threads, best, prev, None, track)
            if every is not None:
                o = "all" if tr[0] == "ok" and tr[1] is None else "other"
            else:
                o = None if b2 is None else name(b2)
            res.setdefault(o, word(s))
        for ch, mark, to in lang.edges[q]:
            if ch is None:
                tr = track
                if every is not None and mark is not None and mark[0] == field:
                    if mark[1] == 0:
                        tr = (track[0] if track[1] is None else "other", "open", None)
                    else:
                        tr = (track[0], "ended", None)
                n = (to, label | {mark} if mark else label, threads, best, prev, tr)
                c = None
                if n not in done:
                    done.add(n)
                    parent[n] = (s, c)
                    todo.append(n)
                continue
            for c in atoms:
                if c not in ch:
                    continue
                t2, b2, tr = advance(label, threads, best, prev, c, track)
                # only whether the last character belongs to a word matters from here on
                n = (to, frozenset(), tuple(t2), b2, "a" if isword(c) else " ", tr)
                if n not in done:
                    done.add(n)
                    parent[n] = (s, c)
                    todo.append(n)
    return res
