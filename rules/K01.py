"""K01: graphs and automata of the bottom-up checker"""
from core import *
import texts
import chkmacro
from interp import Interp, State, UNIT, Undecided
from models import adt

NEEDS = ["lib", "chk"]
A = "mpstthree::checking::aux_checker::"
KEY = A + "aux_get_graph"
S = ("adt", "alloc::string::String", ())
USIZE = ("prim", "usize")
HELPERS = ("get_head_payload_continuation", "get_blocks", "clean_session", "build_dual", "extract_index_node")
ARGS = ["role", "sessions", "roles", "steps", "node", "end", "depth", "rank", "graph", "branches", "seen", "starts", "groups", "cfsm"]


def w(s):
    """a word: stands for any text, equal to itself only"""
    return ("s", "\u2039%s\u203a" % s)


def okv(v):
    return ("a", ("adt", "core::result::Result", ()), 0, (v,))


def text(t):
    """the text of a term, or None"""
    if t is None:
        return None
    if t[0] == "s":
        return t[1]
    if t[0] == "i":
        return str(t[1])
    if t[0] == "x" and t[1] in ("disp",):
        return text(t[2])
    if t[0] == "x" and t[1] == "fmt":
        xs = [text(x) for x in t[2]]
        return None if None in xs else "".join(xs)
    if t[0] == "t" and t[1][0] == "nidx":
        return "#" + str(node(t[1][1]))
    if t[0] == "l":
        return None
    return None


def node(t):
    """a name for a node of the graph"""
    if t is None:
        return "?"
    if t[0] == "t":
        if t[1][0] == "arg":
            return "current"
        if t[1][0] == "call":
            return "new%s" % t[1][1]
        return "-".join(str(x) for x in t[1])
    return repr(t)


class World:
    """one situation: `n` participants, the current one, and what its sessions look like"""

    def __init__(self, F, n, cur):
        self.F, self.n, self.cur = F, n, cur
        self.parts = {}
        self.blocks = {}
        self.clean = {}
        self.peers = [r for r in range(n) if r != cur]
        self.st = State()
        self.I = Interp(F, MODELS)
        f = F.fns[KEY]
        self.inputs = f["inputs"]
        self.args = [("t", ("arg", i), ty) for i, ty in enumerate(f["inputs"])]
        self.a = {k: i for i, k in enumerate(ARGS)}
        self.roles = tuple(w("role %d" % i) for i in range(n))
        self.sessions = tuple(w("session %d" % i) for i in range(n - 1))
        self.args[0] = self.roles[cur]
        self.args[1] = ("l", self.sessions + (w("stack"),))
        self.args[5] = ("l", tuple(("s", "End") for _ in range(n - 1)) + (("s", "RoleEnd"),))
        cell = ("H", self.st.fresh())
        self.st.mem[cell] = ("l", self.roles)
        self.args[2] = ("r", cell, ())
        self.args[7] = ("i", cur)
        for i in range(9, 13):
            self.args[i] = self.map(i, {})

    def map(self, i, entries, ty=None):
        m = ("t", ("map", "arg%s" % (i,)), ty or (self.inputs[i] if isinstance(i, int) else None))
        for k, v in entries.items():
            self.st.mem[("M", m, k)] = v
            self.st.mem[("mapval", m, k)] = ("i", 1)
        return m

    def shape(self, k, head):
        self.parts[self.sessions[k]] = (("s", head),) if head == "End" else (("s", head), w("payload %d" % k), w("rest %d" % k))

    def oracle(self, t):
        if t[0] != "x" or t[1] != "Eq":
            return None

        def eq(a, b):
            if a is None or b is None:
                return None
            if a[0] == "l" and b[0] == "l":
                if len(a[1]) != len(b[1]):
                    return False
                xs = [eq(x, y) for x, y in zip(a[1], b[1])]
                return False if False in xs else None if None in xs else True
            x, y = text(a), text(b)
            if x is None or y is None or "i" in (a[0], b[0]):
                return None
            return x == y

        return eq(t[2], t[3])

    def mods(self):
        mods = MODELS.copy()
        n = self.n

        def parse(table, default):
            def m(I, st, a, c):
                x = I.strip(st, a[0])
                x = x[2] if x is not None and x[0] == "x" and x[1] == "disp" else x
                v = table.get(x)
                if v is None:
                    v = tuple(("t", (default, x, i), S) for i in range(3 if default == "part" else n + 2))
                return [(st, okv(("l", tuple(v))))]
            return m

        def dual(I, st, a, c):
            x = text(I.strip(st, a[0]))
            return [(st, okv(w("dual of %s" % x) if x is not None else ("t", ("dual", I.strip(st, a[0])), S)))]

        def label(I, st, a, c):
            return [(st, okv(("t", ("label",) + tuple(I.strip(st, x) for x in a), S)))]

        def nidx(I, st, a, c):
            return [(st, ("t", ("nidx", I.strip(st, a[0])), USIZE))]

        def clone(I, st, a, c):
            x = I.strip(st, a[0])
            if x is None or x[0] != "t" or x[1][0] != "map":
                return None
            y = ("t", ("map", st.fresh(), "copy"), x[2])
            for cell in [k for k in st.mem if isinstance(k, tuple) and len(k) == 3 and k[0] in ("M", "mapval") and k[1] == x]:
                st.mem[(cell[0], y, cell[2])] = st.mem[cell]
            return [(st, y)]

        def sort(I, st, a, c):
            # the order of texts; other orders are not looked at by the code
            c_, p_ = I.deref_loc(st, a[0])
            v = I.load(st, c_, p_)
            while v is not None and v[0] == "r":
                c_, p_ = v[1], v[2]
                v = I.load(st, c_, p_)
            if v is not None and v[0] == "l":
                def word(x):
                    return text(x[3][0]) if x is not None and x[0] == "a" and x[1] == ("tuple",) else text(x)
                xs = [(word(x), x) for x in v[1]]
                if all(k is not None for k, _ in xs):
                    I.store(st, c_, p_, ("l", tuple(x for _, x in sorted(xs, key=lambda y: y[0]))))
                    return [(st, UNIT)]
            return None

        def dedup(I, st, a, c):
            c_, p_ = I.deref_loc(st, a[0])
            v = I.load(st, c_, p_)
            if v is None or v[0] != "l":
                return None
            out = []
            for x in v[1]:
                if not out or text(x) is None or text(x) != text(out[-1]):
                    out.append(x)
            I.store(st, c_, p_, ("l", tuple(out)))
            return [(st, UNIT)]

        def contains(I, st, a, c):
            pair = (I.strip(st, a[1]), I.strip(st, a[2]))
            for e in st.events():
                if e[0] == "call" and e[1].startswith("petgraph") and e[1].endswith("::add_edge") and e[2][1:3] == pair:
                    return [(st, ("i", 1))]
            return [(st, ("x", "hasedge") + pair)]

        def last(I, st, a, c):
            # a line changed in place: as if it were taken off and put back
            v = a[0]
            while v is not None and v[0] == "r":
                v = I.load(st, v[1], v[2])
            if v is None or v[0] != "t" or not (c.dty and c.dty[0] == "adt" and c.dty[2] and c.dty[2][0][0] == "ref"):
                return None
            ty = c.dty[2][0][2]
            t = ("t", ("pop", st.fresh(), v), ("adt", "core::option::Option", (ty,)))
            s1, s2 = st.fork(), st
            s1.tags[t], s2.tags[t] = 0, 1
            cell = ("H", s2.fresh())
            s2.mem[cell] = s2.mem[("lastline", cell)] = I.expand(s2, I.fld(t, 1, 0), ty)
            return [(s1, adt(t[2][1], 0)), (s2, adt(t[2][1], 1, ("r", cell, ())))]

        def octets(I, st, a, c):
            return [(st, I.strip(st, a[0]))]

        def written(I, st, a, c):
            # the same event for every way of writing a text to a file
            v = I.strip(st, a[1])
            if v is not None and v[0] == "b":
                v = ("s", bytes(v[1]).decode("utf8", "replace"))
            t = ("t", ("call", st.fresh(), c.nice), c.dty)
            st.event("call", "std::io::Write::write_fmt", (I.strip(st, a[0]), v), t, c.site)
            return [(st, t)]

        base = mods.find("std::clone::Clone::clone", "", None)

        def clones(I, st, a, c):
            return clone(I, st, a, c) or base(I, st, a, c)

        P = lambda rx, m: mods.pats.insert(0, (re.compile(rx + r"\Z"), m))
        P(r".*get_head_payload_continuation", parse(self.parts, "part"))
        P(r".*aux_checker::get_blocks", parse(self.blocks, "block"))
        P(r".*aux_checker::clean_session", parse(self.clean, "clean"))
        P(r".*aux_checker::build_dual", dual)
        P(r".*aux_checker::extract_index_node", label)
        P(r"petgraph::.*NodeIndex.*::index", nidx)
        P(r"petgraph::.*::contains_edge", contains)
        P(r"std::slice::<impl \[T\]>::sort(_unstable)?", sort)
        P(r"std::vec::Vec::<.*>::dedup", dedup)
        texts.first(mods, r"(std::string::String|(core|std|alloc)::str::<impl str>)::(as_bytes|into_bytes)\Z", octets)
        texts.first(mods, r"std::io::Write::(write_fmt|write_all|write)\Z|std::fs::write\Z", written)
        texts.first(mods, r".*<impl \[T\]>::last_mut\Z", last)
        mods.exact["std::clone::Clone::clone"] = clones
        mods.cache = {}
        return mods

    def paths(self, R):
        ps, I = R.paths_of(self.F, KEY, args=list(self.args), st=self.st, mods=self.mods(), opaque=[KEY], oracle=self.oracle)
        self.I = I
        return ps



RULE = (
    "for every participant position, every peer, direction and state of the already-seen table, on every path of the graph builder: the finished type adds one last edge '0' and nothing else; a send or receive adds exactly one node and one edge from the current node to it, "
    "labelled role!peer / role?peer and payload, and exactly one automaton line with the peer's index in the written order, and goes on from the new node with only that session and the stack advanced; "
    "a choice continues every branch from the node where it is made, with the offered type (passive) or the duals of what the others are given plus the branch's own stack (chooser), left and right never mixed; a branch already seen gets one edge 'µ' back to its node and the automaton line that led here is redirected to that node; "
    "graph and automaton are threaded through all continuations; failures are propagated; the initial node is 0, the automata are written framed, one per role, in the order that numbers the peers; the dual exchanges Send and Recv at every level and keeps payloads; type texts are split at top-level commas only; the text the compiler gives for a type is read as its fields, every path shortened to its last segment as a whole, payloads kept, every participant's name read entirely; the expansion of checker_concat! hands over each start type, for every branch the type adopted by the chooser, one number per group of branches and the type each receiver offers, nothing else"
)
EXPLAIN = "Path analysis of the graph builder, get_graph_session, checker, clean_sessions and the type splitters with the helpers of the layer below summarised; names, payloads and continuations are placeholder words (the code only compares and prints them), participant counts 3 and 4, choices with two branches, every entry point of the recursion is covered by the induction on the type. The reading of type texts is computed (by constant folding of the string operations and regular expressions it applies, no code being run) on a family of texts covering every shape of session, payload, role name and module path."
FLOORS = {"steps": 20, "ends": 2, "wrong heads refused": 2, "passive choices": 6, "active choices": 3, "recursive branches explored": 12, "recursive branches seen": 8, "automata": 2, "duals": 4, "splits": 50, "heads": 3, "role starts": 3, "types read": 2, "checker calls": 4}
STR = "\u00b5"


def graph_calls(p, name):
    return [e for e in p.ev("call") if e[1].startswith("petgraph") and e[1].endswith("::" + name)]


def others(p):
    return [e for e in p.ev("call") if e[1].startswith("petgraph") and e[1].rsplit("::", 1)[1] not in ("add_node", "add_edge", "contains_edge", "find_edge", "node_count", "edge_count", "edges_connecting")]


def recs(p):
    return [e for e in p.ev("call") if e[1].endswith("::aux_get_graph")]


def before(p, call, i):
    """what argument i led to before the call"""
    return next((e[3] for e in p.ev("before") if e[1] == call[3] and e[2] == i), None)


def words(v):
    if v is None or v[0] != "l":
        return None
    return [text(x) for x in v[1]]


def base(v):
    """(origin of the automaton, lines added to it in order)"""
    add = []
    while v is not None and v[0] == "t" and v[1][0] == "pushed":
        add.insert(0, v[1][2])
        v = v[1][1]
    return v, add


def from_call(v, call, i):
    """v is component i of the successful result of the call"""
    if v is None or v[0] != "t" or v[1][0] != "fld" or v[1][3] != i:
        return False
    x = v[1][1]
    x = x if x[0] == "t" else ("t", x, None)
    if x[1][0] != "fld" or x[1][2] != 0 or x[1][3] != 0:
        return False
    y = x[1][1]
    return (y[1] if y[0] == "t" else y) == call[3][1]


class Check:
    def __init__(self, R, W, what):
        self.R, self.W, self.what = R, W, what
        self.ps = W.paths(R)

    def ok(self, cond, key, msg, p=None):
        return self.R.check(cond, "aux_get_graph:%s:%s" % (self.what, key), "%s: %s" % (self.what, msg), p)

    def good(self):
        """the paths that do not stop with an error of something they called"""
        if self.ps is None:
            return []
        out = [p for p in self.ps if p.kind == "return" and not self.is_error(p)]
        self.ok(out, "none", "no path handles the situation")
        for p in self.ps:
            if p.kind == "return" and self.is_error(p):
                e = p.value[3][0]
                self.ok("'call'" in repr(e), "error", "fails by itself: %s" % sh(e)[:100], p)
            self.ok(p.kind == "return", "stops", "the builder stops: %s" % sh(p.value)[:120], p)
        return out

    @staticmethod
    def is_error(p):
        v = p.value
        return v is not None and v[0] == "a" and v[1][0] == "adt" and v[1][1].endswith("::Result") and v[2] == 1

    def same_context(self, p, call):
        """arguments that no step changes"""
        a, W = call[2], self.W
        self.ok(text(self.strip(p, a[0])) == W.roles[W.cur][1], "continues:role", "goes on as %s" % sh(a[0]), p)
        self.ok(self.deref(p, a[2]) == ("l", W.roles), "continues:roles", "goes on with the roles %s" % sh(self.deref(p, a[2])), p)
        self.ok(words(a[5]) == ["End"] * (W.n - 1) + ["RoleEnd"], "continues:end", "goes on with the end %s" % sh(a[5]), p)
        self.ok(a[7] == ("i", W.cur), "continues:rank", "goes on as role number %s" % sh(a[7]), p)

    def deref(self, p, v):
        while v is not None and v[0] == "r":
            v = self.W.I.load(p.st, v[1], v[2])
        return v

    strip = deref

    def table(self, p, m):
        """content of a map"""
        m = self.deref(p, m)
        return {text(c[2]): p.st.mem[("M", m, c[2])] for c in p.st.mem if isinstance(c, tuple) and len(c) == 3 and c[0] == "mapval" and c[1] == m and p.st.mem[c] == ("i", 1)}


def step(R, F, n, cur, k, head):
    """a plain send or receive with peer k"""
    W = World(F, n, cur)
    peer = W.peers[k]
    W.parts[w("stack")] = (W.roles[peer], w("stack rest"))
    for j in range(n - 1):
        W.shape(j, head if j == k else "Send" if head == "Recv" else "Recv")
    C = Check(R, W, "send" if head == "Send" else "receive")
    sign = "!" if head == "Send" else "?"
    me, other, pay = W.roles[cur][1], W.roles[peer][1], w("payload %d" % k)[1]
    for p in C.good():
        R.count("steps")
        nodes, edges, rs = graph_calls(p, "add_node"), graph_calls(p, "add_edge"), recs(p)
        if not C.ok(len(nodes) == 1 and len(edges) == 1 and not others(p), "one", "adds %d nodes and %d edges" % (len(nodes), len(edges)), p):
            continue
        new = nodes[0][3]
        e = edges[0][2]
        C.ok(e[1] == W.args[4] and e[2] == new, "edge", "the edge goes from %s to %s" % (node(e[1]), node(e[2])), p)
        C.ok(text(e[3]) == "%s%s%s: %s" % (me, sign, other, pay), "label", "peer %s is labelled %s" % (other, text(e[3]) or sh(e[3])), p)
        C.ok(before(p, nodes[0], 0) == W.args[8] and before(p, edges[0], 0) == ("t", ("mut", nodes[0][3][1][1], 0), W.args[8][2]), "graph", "the graph that is extended is not the one given", p)
        if not C.ok(len(rs) == 1 and (p.value == rs[0][3] or (is_ok(p.value) and from_call(pair(p.value, 0), rs[0], 0) and from_call(pair(p.value, 1), rs[0], 1))), "result", "the result is not the one of what follows", p):
            continue
        a = rs[0][2]
        want = [x[1] for x in W.sessions] + [w("stack rest")[1]]
        want[k] = w("rest %d" % k)[1]
        C.ok(words(a[1]) == want, "advance", "goes on with %s" % words(a[1]), p)
        C.ok(a[4] == new, "next", "goes on from node %s" % node(a[4]), p)
        C.ok(a[8] == ("t", ("mut", edges[0][3][1][1], 0), a[8][2] if a[8] else None), "graph", "goes on with another graph", p)
        C.same_context(p, rs[0])
        org, add = base(a[13])
        if C.ok(org == W.args[13] and len(add) == 1 and add[0][0] == "a" and len(add[0][3]) == 2, "line", "adds %d lines to the automaton" % len(add), p):
            s, t = add[0][3]
            C.ok((text(s) or "").replace("#current", "#") == "%s# %d %s %s %s" % (me, peer, sign, pay, me), "line", "the automaton has the line %s for peer number %d" % (text(s) or sh(s), peer), p)
            C.ok(t == ("t", ("nidx", new), USIZE), "target", "the line leads to %s" % sh(t), p)
        for i in (9, 10, 11, 12):
            C.ok(C.table(p, a[i]) == {}, "continues:tables", "goes on with a changed table of branches", p)


def pair(v, i):
    try:
        return v[3][0][3][i]
    except (IndexError, TypeError):
        return None


def end(R, F, n):
    W = World(F, n, 0)
    W.args[1] = W.args[5]
    C = Check(R, W, "end")
    for p in C.good():
        R.count("ends")
        nodes, edges = graph_calls(p, "add_node"), graph_calls(p, "add_edge")
        if not C.ok(len(nodes) == 1 and len(edges) == 1 and not others(p) and not recs(p), "one", "adds %d nodes and %d edges, continues %d times" % (len(nodes), len(edges), len(recs(p))), p):
            continue
        e = edges[0][2]
        C.ok(e[1] == W.args[4] and e[2] == nodes[0][3] and text(e[3]) == "0", "edge", "the last edge is %s from %s to %s" % (text(e[3]), node(e[1]), node(e[2])), p)
        C.ok(is_ok(p.value) and pair(p.value, 1) == W.args[13] and pair(p.value, 0) is not None and pair(p.value, 0)[1] == ("mut", edges[0][3][1][1], 0), "result", "returns %s" % sh(p.value)[:120], p)


def refused(R, F, head):
    W = World(F, 3, 1)
    W.parts[w("stack")] = (W.roles[2], w("stack rest"))
    W.shape(0, "Send")
    W.parts[W.sessions[1]] = (("s", head),) + ((w("payload 1"), w("rest 1")) if head != "End" else ())
    ps = W.paths(R)
    for p in ps or ():
        R.count("wrong heads refused")
        R.check(p.kind == "panic" or Check.is_error(p), "aux_get_graph:refuse", "a session that begins with '%s' under a pending interaction is accepted" % head, p)


def choice(R, F, n, cur, k):
    """a choice between two types; k: the peer that chooses, None: this participant"""
    W = World(F, n, cur)
    W.parts[w("stack")] = (w("to or from all"), w("stack left"), w("stack right"))
    for j in range(n - 1):
        W.shape(j, "Send" if k is None else "Recv" if j == k else "End")
        W.parts[w("payload %d" % j)] = (("s", "Either"), w("left %d" % j), w("right %d" % j))
        whose = W.peers[j] if k is None else cur
        for s in ("left", "right"):
            x = "%s %d" % (s, j)
            W.blocks[w(x)] = tuple(w("%s.%d" % (x, i)) for i in range(n)) + (w("%s.name" % x),)
            W.parts[w("%s.name" % x)] = (W.roles[whose], ("s", "RoleEnd"))
            W.clean[w(x)] = W.blocks[w(x)] + (W.roles[whose],)
    C = Check(R, W, "chooser" if k is None else "offer")
    for p in C.good():
        R.count("active choices" if k is None else "passive choices")
        rs = recs(p)
        C.ok(not graph_calls(p, "add_edge") and not graph_calls(p, "add_node") and not others(p), "quiet", "the choice itself adds to the graph", p)
        if not C.ok(len(rs) == 2, "branches", "%d branches are explored" % len(rs), p):
            continue
        C.ok(p.value == rs[1][3] or (is_ok(p.value) and from_call(pair(p.value, 0), rs[1], 0) and from_call(pair(p.value, 1), rs[1], 1)), "result", "the result is not the one of the last branch", p)
        for i, (s, r) in enumerate(zip(("left", "right"), rs)):
            a = r[2]
            if k is None:
                want = [w("dual of %s" % w("%s %d.%d" % (s, j, cur - (cur > q)))[1])[1] for j, q in enumerate(W.peers)] + [w("stack " + s)[1]]
            else:
                want = [w("%s %d.%d" % (s, k, j))[1] for j in range(n)]
            C.ok(words(a[1]) == want, "branch", "the %s branch is %s" % (s, words(a[1])), p)
            C.ok(a[4] == W.args[4], "from", "the %s branch starts at %s" % (s, node(a[4])), p)
            if i == 0:
                C.ok(a[8] == W.args[8] and a[13] == W.args[13], "thread", "the first branch does not get the graph and the automaton so far", p)
            else:
                C.ok(from_call(a[8], rs[0], 0) and from_call(a[13], rs[0], 1), "thread", "the second branch does not extend the result of the first", p)
            C.same_context(p, r)


def recursive(R, F, n, cur, k, seen, groups, shapes, broadcast=False):
    """a choice between the variants of an enum; k: the peer that chooses; seen: the variants explored before"""
    W = World(F, n, cur)
    nb = len(groups)
    k = 0 if broadcast else k
    pay = w("payload %d" % k)
    br = [("s", "%s::%s" % (pay[1], w("variant %d" % i)[1])) for i in range(nb)]
    recv, start = shapes
    if broadcast:
        W.parts[w("stack")] = (("s", "RoleBroadcast"),)
        for j in range(n - 1):
            W.shape(j, "Send")
            W.parts[W.sessions[j]] = (("s", "Send"), w("payload %d" % j), ("s", "End"))
    else:
        W.parts[w("stack")] = (W.roles[W.peers[k]], ("s", "RoleEnd"))
        for j in range(n - 1):
            W.shape(j, "Recv" if j == k else "End")

    def mesh(x, cut):
        c = ["%s.%d" % (x, i) for i in range(n)] + ["%s.name" % x, "%s.role" % x]
        return ("l", tuple(w(y) for y in c[:cut]))

    table = {}
    nm = n - 1 if broadcast else 1
    for j in (range(nm) if broadcast else [k]):
        inner = W.map("inner%d" % j, {w("variant %d" % i): mesh("variant %d" % i, recv) for i in range(nb)})
        table[w("payload %d" % j)] = inner
    W.args[9] = W.map(9, table)
    W.args[10] = W.map(10, {br[i]: ("t", ("seen", i), W.args[4][2]) for i in seen})
    W.args[11] = W.map(11, {("s", "%s::%s" % (w("payload %d" % j)[1], w("variant %d" % i)[1])): mesh("start %d.%d" % (j, i), start) for j in range(n - 1) for i in range(nb)})
    W.args[12] = W.map(12, {("s", "%s::%s" % (w("payload %d" % j)[1], w("variant %d" % i)[1])): ("i", groups[i]) for j in range(n - 1) for i in range(nb)})
    names = {"%s::%s" % (w("payload %d" % j)[1], w("variant %d" % i)[1]): (j, i) for j in (range(n - 1) if broadcast else [k]) for i in range(nb)}
    back = {br[i][1]: ("t", ("seen", i), W.args[4][2]) for i in seen}
    if broadcast:
        back = {b: ("t", ("seen", i), W.args[4][2]) for b, (j, i) in names.items() if i in seen}
        W.args[10] = W.map(10, {("s", b): v for b, v in back.items()})
    C = Check(R, W, "broadcast" if broadcast else "offer-branch")
    for p in C.good():
        rs = recs(p)
        C.ok(not graph_calls(p, "add_node") and not others(p), "quiet", "the choice itself adds a node", p)
        done, marked = {}, {}
        for r in rs:
            a = r[2]
            got = words(a[1]) or ["?"]
            x = re.match(r"\u2039(?:variant|start (\d+)\.)? ?(\d+)\.0\u203a", got[0] or "")
            if not C.ok(x is not None, "branch", "a branch continues with %s" % got, p):
                break
            j, i = (int(x.group(1)) if broadcast else k), int(x.group(2))
            b = "%s::%s" % (w("payload %d" % j)[1], w("variant %d" % i)[1])
            R.count("recursive branches explored")
            C.ok(b not in back, "again", "a branch explored before is explored again", p)
            C.ok(b not in done and b not in marked, "twice", "a branch is explored twice", p)
            src = ("start %d.%d" % (j, i)) if broadcast else "variant %d" % i
            C.ok(got == [w("%s.%d" % (src, y))[1] for y in range(n)], "branch", "variant %d continues with %s" % (i, got), p)
            C.ok(a[4] == W.args[4], "from", "variant %d starts at %s" % (i, node(a[4])), p)
            C.same_context(p, r)
            t = C.table(p, a[10])
            C.ok(all(t.get(y) == W.args[4] for y in names), "remember", "inside a branch the choice is not remembered at the node where it was made: %s" % {y: sh(v) for y, v in t.items()}, p)
            done[b] = r
            marked.update({y: b for y, (jj, ii) in names.items() if groups[ii] == groups[i]})
            C.ok(C.table(p, a[9]) == C.table(p, W.args[9]) and C.table(p, a[11]) == C.table(p, W.args[11]) and C.table(p, a[12]) == C.table(p, W.args[12]), "continues:tables", "goes on with a changed table of branches", p)
        for b in names:
            C.ok(b in done or b in back or b in marked, "left-out", "a branch is not explored", p)
        # the branches taken before
        edges = graph_calls(p, "add_edge")
        used, met = [], set()
        org, add = base(pair(p.value, 1))
        for b, target in back.items():
            if b in done:
                continue
            mine = [e for e in edges if e[2][1] == W.args[4] and e[2][2] == target and e not in used]
            used += mine
            R.count("recursive branches seen")
            same = any(y[0] == "x" and y[1] == "Eq" and {y[2], y[3]} == {W.args[4], target} and v == 1 for y, v in p.conds.items())
            known = [e for e in p.ev("call") if e[1].startswith("petgraph") and e[1].endswith("find_edge") and e[2][1:3] == (W.args[4], target)]
            there = p.conds.get(("x", "hasedge", W.args[4], target)) == 1 or bool(known)
            first = target not in met
            met.add(target)
            C.ok(len(mine) == 1 if first and not (same or there) else not mine, "back", "%d edges lead back to the node of a branch taken before" % len(mine), p)
            for e in mine:
                C.ok(text(e[2][3]) == STR, "back-label", "the edge back is labelled %s" % text(e[2][3]), p)
        C.ok(len(used) == len(edges), "other-edges", "the choice adds other edges", p)
        # the automaton: the line that led here leads back instead
        lines = [y for e in p.ev("push") for y in e[2:3] if e[1] is not None and y is not None and y[0] == "a" and len(y[3]) == 2 and "nidx" in repr(y[3][1])]
        lines += [p.st.mem[k[1]] for k, y in p.st.mem.items() if isinstance(k, tuple) and k and k[0] == "lastline" and p.st.mem[k[1]] != y]
        for y in lines:
            s, t = y[3]
            C.ok("'pop'" in repr(s) and t[1][1] in [e[2][2] for e in used], "redirect", "a line of the automaton becomes %s" % sh(y)[:120], p)
            pop = find(s, "pop")
            C.ok(any("Eq" in repr(c[:2]) and repr(pop) in repr(c) and "nidx" in repr(c) for c in p.conds if isinstance(c, tuple)), "redirect-any-line", "the line written last is redirected although it need not be one that leads to the current node", p)
        popped = [t for t, v in p.tags.items() if isinstance(t, tuple) and t[0] == "t" and t[1][0] == "pop" and v == 1]
        C.ok(len(lines) == len(popped) and (len(popped) == len(used) or any(v == 0 and t[1][0] == "pop" for t, v in p.tags.items() if isinstance(t, tuple) and t[0] == "t")), "redirect-missing", "%d lines are redirected for %d edges back" % (len(lines), len(used)), p)
        # threads: every continuation extends what was there before it
        for i, r in enumerate(rs):
            if i:
                C.ok(follows(r[2][8], rs[i - 1], 0) and follows(base(r[2][13])[0], rs[i - 1], 1), "thread", "a branch does not extend the result of the one before", p)
            else:
                C.ok(base(r[2][13])[0] == W.args[13] and (r[2][8] == W.args[8] or r[2][8][1][0] == "mut"), "thread", "the first branch does not get the graph and the automaton so far", p)
        if rs:
            C.ok(is_ok(p.value) and follows(pair(p.value, 0), rs[-1], 0) and follows(base(pair(p.value, 1))[0], rs[-1], 1), "result", "the result is not the one of the last branch", p)
        else:
            C.ok(is_ok(p.value) and org == W.args[13] and (pair(p.value, 0) == W.args[8] or pair(p.value, 0)[1][0] == "mut"), "result", "the result is not the graph and the automaton so far", p)


def follows(v, call, i):
    """v is component i of the result of the call, perhaps extended since"""
    return from_call(v, call, i) or (v is not None and v[0] == "t" and v[1][0] in ("mut", "popped"))


def find(v, kind):
    if isinstance(v, tuple):
        if len(v) > 1 and v[0] == kind:
            return v
        for x in v:
            y = find(x, kind)
            if y is not None:
                return y
    return None


def session(R, F):
    """what is written around the automaton of one role"""
    key = A + "get_graph_session"
    f = F.fns.get(key)
    if not R.check(f is not None and len(f["inputs"]) == 6, "anchor:get_graph_session", "the function that starts the graph of a role is gone"):
        return
    for cur in range(3):
        W = World(F, 3, cur)
        mods = W.mods()
        seen = []

        def inner(I, st, a, c):
            st.event("start", tuple(I.strip(st, x) for x in a), tuple(a), c.site)
            lines = ("l", tuple(("a", ("tuple",), 0, (w("line %d" % i), ("i", 40 + i))) for i in range(2)))
            return [(st.fork(), okv(("a", ("tuple",), 0, (("t", ("graph", 0), None), lines)))), (st, ("a", ("adt", "core::result::Result", ()), 1, (("t", ("call", "inner", "error"), None),)))]

        mods.pats.insert(0, (re.compile(r".*::aux_get_graph\Z"), inner))
        args = [W.roles[cur], W.args[1], W.args[2]] + [W.map("g%d" % i, {}, f["inputs"][i]) for i in (3, 4, 5)]
        ps, I = R.paths_of(F, key, args=args, st=W.st, mods=mods, oracle=W.oracle)
        for p in ps or ():
            k = "get_graph_session:"
            st = p.ev("start")
            if not R.check(len(st) == 1 and p.kind == "return", k + "once", "the graph of a role is built %d times" % len(st), p):
                continue
            if Check.is_error(p):
                R.check("'inner'" in repr(p.value), k + "error", "fails by itself", p)
                continue
            a = st[0][1]
            nodes = graph_calls(p, "add_node")
            R.check(len(nodes) == 1 and a[4] == nodes[0][3], k + "first", "the graph starts at %s" % sh(a[4]), p)
            R.check(text(a[0]) == W.roles[cur][1] and a[1] == W.args[1] and a[2] == ("l", W.roles) and a[7] == ("i", cur), k + "role", "role number %d is built as %s number %s" % (cur, sh(a[0]), sh(a[7])), p)
            R.check(words(a[5]) == ["End", "End", "RoleEnd"], k + "end", "a role is finished at %s" % sh(a[5]), p)
            R.check(a[6] == ("i", 0) and a[3] == ("l", (("i", 0),)), k + "depth", "the first step is numbered %s at depth %s" % (sh(a[3]), sh(a[6])), p)
            R.check([a[9], a[11], a[12]] == args[3:6], k + "tables", "the tables of branches are not the ones given", p)
            R.check(a[13] == ("l", ()), k + "empty", "the automaton does not start empty", p)
            lines = words(pair(p.value, 1))
            want = [".outputs", ".state graph", w("line 0")[1] + "40", w("line 1")[1] + "41", ".marking %s0" % W.roles[cur][1], ".end"]
            R.check(lines == want, k + "frame", "the automaton is written as %s" % (lines or sh(pair(p.value, 1))), p)
            R.check(pair(p.value, 0) == ("t", ("graph", 0), None), k + "graph", "the graph returned is not the one built", p)
            R.count("role starts")


def cleaned(x, n):
    return ("l", tuple(w("%s.%d" % (x, i)) for i in range(n)) + (w("%s.name" % x), w("%s.role" % x)))


def whole(R, F):
    """checker: one graph per role, automata in the order that numbers the roles; -> how branches are handed on"""
    key = "mpstthree::checking::checker"
    f = F.fns.get(key)
    if not R.check(f is not None and len(f["inputs"]) == 5, "anchor:checker", "the checker is gone"):
        return None
    shapes = set()
    n = 3
    for order in ((0, 1, 2), (2, 0, 1)):
        for name in ("", "file"):
            W = World(F, n, 0)
            mods = W.mods()
            P = lambda rx, m: mods.pats.insert(0, (re.compile(rx + r"\Z"), m))

            def sessions(I, st, a, c):
                ty = ("adt", "std::collections::hash::map::HashMap", (S, ("adt", "alloc::vec::Vec", (S,))))
                m = ("t", ("map", st.fresh(), "sessions"), ty)
                for i in order:
                    st.mem[("M", m, W.roles[i])] = ("l", tuple(w("s%d.%d" % (i, x)) for x in range(n)))
                    st.mem[("mapval", m, W.roles[i])] = ("i", 1)
                return [(st, okv(("a", ("tuple",), 0, (m, ("l", W.roles)))))]

            def graph(I, st, a, c):
                a = [I.strip(st, x) for x in a]

                def content(m):
                    return {text(k[2]): (content(v) if v[0] == "t" and v[1][0] == "map" else words(v) if v[0] == "l" else v) for k in list(st.mem) if isinstance(k, tuple) and len(k) == 3 and k[0] == "mapval" and k[1] == m and st.mem[k] == ("i", 1) for v in [I.strip(st, st.mem[("M", m, k[2])])]}
                st.event("session", a[0], a[1], a[2], [content(x) for x in a[3:6]], c.site)
                return [(st, okv(("a", ("tuple",), 0, (("t", ("graph", a[0]), None), ("l", tuple(w("%s line %d" % (text(a[0]), i)) for i in range(2)))))))]

            def clean(I, st, a, c):
                return [(st, okv(cleaned(text(I.strip(st, a[0])), n)))]

            def kmc(I, st, a, c):
                st.event("kmc", c.site)
                return [(st, okv(("a", ("tuple",), 0, (("i", 1), ("t", ("out", 0), S)))))]

            P(r".*aux_checker::clean_sessions", sessions)
            P(r".*aux_checker::clean_session", clean)
            P(r".*aux_checker::get_graph_session", graph)
            P(r".*checking::kmc_cli", kmc)
            tys = f["inputs"]
            inner = {j: W.map("in%d" % j, {w("variant %d" % i): w("recv %d.%d" % (j, i)) for i in range(2)}, tys[2][2][1] if tys[2][0] == "adt" else None) for j in range(2)}
            given = [W.map("recv", {w("enum %d" % j): m for j, m in inner.items()}, tys[2]), W.map("start", {w("branch %d" % i): w("start %d" % i) for i in range(2)}, tys[3]), W.map("group", {w("branch %d" % i): ("i", i) for i in range(2)}, tys[4])]
            args = [("s", name), ("l", tuple(w("type %d" % i) for i in range(n)))] + given
            ps, I = R.paths_of(F, key, args=args, st=W.st, mods=mods, oracle=W.oracle)
            k = "checker:"
            for p in ps or ():
                if Check.is_error(p):
                    R.check("'call'" in repr(p.value) or "'iores'" in repr(p.value), k + "error", "fails by itself: %s" % sh(p.value)[:100], p)
                    continue
                if not R.check(p.kind == "return" and is_ok(p.value), k + "stops", "the checker stops: %s" % sh(p.value)[:120], p):
                    continue
                R.count("automata" if name else "graphs only")
                ss = p.ev("session")
                R.check(sorted(text(e[1]) for e in ss) == sorted(text(r) for r in W.roles), k + "roles", "graphs are built for %s" % [text(e[1]) for e in ss], p)
                for e in ss:
                    i = [text(r) for r in W.roles].index(text(e[1])) if text(e[1]) in [text(r) for r in W.roles] else -1
                    R.check(words(e[2]) == [w("s%d.%d" % (i, x))[1] for x in range(n)], k + "session", "role %s is built from %s" % (text(e[1]), words(e[2])), p)
                    R.check(e[3] == ("l", W.roles), k + "order", "roles are numbered %s" % words(e[3]), p)
                    recv, start, group = e[4]
                    lens = set()
                    for j in range(2):
                        t = recv.get(w("enum %d" % j)[1])
                        if R.check(isinstance(t, dict) and set(t) == {w("variant %d" % i)[1] for i in range(2)}, k + "receivers", "the variants of an enum are handed on as %s" % (t,), p):
                            for i in range(2):
                                v, full = t[w("variant %d" % i)[1]], words(cleaned(w("recv %d.%d" % (j, i))[1], n))
                                R.check(v is not None and v == full[:len(v)], k + "receivers", "variant %d of enum %d is handed on as %s" % (i, j, v), p)
                                lens.add(("recv", len(v or ())))
                    for i in range(2):
                        v, full = start.get(w("branch %d" % i)[1]), words(cleaned(w("start %d" % i)[1], n))
                        R.check(v is not None and v == full[:len(v)], k + "starts", "branch %d is handed on as %s" % (i, v), p)
                        lens.add(("start", len(v or ())))
                    R.check(group == {w("branch %d" % i)[1]: ("i", i) for i in range(2)}, k + "groups", "the groups are handed on as %s" % group, p)
                    shapes |= lens
                res = pair(p.value, 0)
                t = {text(c[2]): p.st.mem[("M", res, c[2])] for c in p.st.mem if isinstance(c, tuple) and len(c) == 3 and c[0] == "mapval" and c[1] == res}
                R.check(t == {text(r): ("t", ("graph", r), None) for r in W.roles}, k + "result", "the graphs are returned as %s" % {x: sh(v) for x, v in t.items()}, p)
                if name:
                    kmcs = [i for i, e in enumerate(p.events) if e[0] == "kmc"]
                    out = [text(e[2][1]) for i, e in enumerate(p.events) if e[0] == "call" and re.search(r"io::Write::(write_fmt|write_all|write)$", e[1]) and (not kmcs or i < kmcs[0])]
                    if R.check(None not in out, k + "written", "what is written to the file cannot be read off", p):
                        got = [x for x in "".join(out).split("\n")]
                        want = []
                        for r in W.roles:
                            want += ["%s" % w("%s line %d" % (text(r), i))[1] for i in range(2)] + [""]
                        R.check(got == want + [""], k + "file", "the file contains %s" % got, p)
    d = dict(shapes)
    return (d.get("recv"), d.get("start")) if len(shapes) == 2 else None


def sessions(R, F):
    key = A + "clean_sessions"
    if not R.check(key in F.fns, "anchor:clean_sessions", "the function that reads the types of all roles is gone"):
        return
    n = 3
    for order in ((0, 1, 2), (2, 0, 1)):
        W = World(F, n, 0)
        mods = W.mods()

        def clean(I, st, a, c):
            x = I.strip(st, a[0])
            i = next((i for i in range(n) if x == w("type %d" % i)), None)
            return [(st, okv(("l", tuple(w("s%s.%d" % (i, x)) for x in range(n)) + (w("name %s" % i), W.roles[i]))))] if i is not None else None

        mods.pats.insert(0, (re.compile(r".*aux_checker::clean_session\Z"), clean))
        ps, I = R.paths_of(F, key, args=[("l", tuple(w("type %d" % i) for i in order))], st=W.st, mods=mods, oracle=W.oracle)
        for p in ps or ():
            if not R.check(p.kind == "return" and is_ok(p.value), "clean_sessions:stops", "the types of three roles are refused: %s" % sh(p.value)[:100], p):
                continue
            R.count("types read")
            R.check(words(pair(p.value, 1)) == [text(r) for r in W.roles], "clean_sessions:roles", "given in the order %s, the roles are numbered %s" % (order, words(pair(p.value, 1)) or sh(pair(p.value, 1))), p)
            m = pair(p.value, 0)
            t = {text(c[2]): words(p.st.mem[("M", m, c[2])]) for c in p.st.mem if isinstance(c, tuple) and len(c) == 3 and c[0] == "mapval" and c[1] == m}
            R.check(t == {text(W.roles[i]): [w("s%d.%d" % (i, x))[1] for x in range(n)] for i in range(n)}, "clean_sessions:types", "the types are filed as %s" % t, p)


def dual(R, F):
    key = A + "build_dual"
    if not R.check(key in F.fns, "anchor:build_dual", "the function that builds the dual of a type is gone"):
        return
    for head in ("Send", "Recv", "End", "RoleX"):
        W = World(F, 3, 0)
        mods = W.mods()
        x = ("s", "End") if head == "End" else w("type")
        W.parts[w("type")] = (("s", head), w("payload"), w("rest"))
        mods.pats = [(r, m) for r, m in mods.pats if not r.pattern.startswith(".*aux_checker::build_dual")]

        def again(I, st, a, c):
            v = text(I.strip(st, a[0]))
            return [(st, okv(w("dual of %s" % v)))] if v == w("rest")[1] else None

        mods.pats.insert(0, (re.compile(r".*aux_checker::build_dual\Z"), again))
        ps, I = R.paths_of(F, key, args=[x], st=W.st, mods=mods, oracle=W.oracle)
        k = "build_dual:%s" % head
        for p in ps or ():
            R.count("duals")
            if head == "RoleX":
                R.check(p.kind == "panic" or Check.is_error(p), k, "something that is not a session has a dual", p)
                continue
            want = "End" if head == "End" else "%s<%s,%s>" % ({"Send": "Recv", "Recv": "Send"}[head], w("payload")[1], w("dual of %s" % w("rest")[1])[1])
            R.check(p.kind == "return" and is_ok(p.value) and text(p.value[3][0]) == want, k, "the dual of a %s is %s" % (head, sh(p.value)[:120]), p)


def splitter(R, F):
    """a type text is split at the commas of its outermost brackets"""
    key = A + "get_blocks"
    if not R.check(key in F.fns, "anchor:get_blocks", "the function that splits a type is gone"):
        return
    CH = ("prim", "char")
    OTHER = ord("q")  # stands for whatever an identifier is made of
    code = {c: ord(c) for c in "<>,& ()[];"}
    OPEN, CLOSE = "<([", ">)]"

    def bodies(n):
        """bracketed texts of n marks without empty parts"""
        out = []

        def go(s, depth):
            if len(s) == n:
                if depth == 0 and s[-1:] != ",":
                    out.append(s)
                return
            last = s[-1:]
            go(s + "x", depth)
            if last == "x":
                go(s + "<", depth + 1)
            if last in ("x", ">") and last:
                go(s + ",", depth)
                if depth:
                    go(s + ">", depth - 1)

        go("", 0)
        return out

    texts = [b for n in range(1, 7) for b in bodies(n)]
    texts += [b[:i] + c + b[i:] for b in ("x,x", "x<x,x>,x") for i in range(len(b) + 1) for c in " &"]
    # tuples, arrays and their mixtures
    texts += ["(x,x),x", "x,(x,x)", "(x,x)", "[x;x],x", "x,[x;x]", "x<(x,x)>,x", "(x<x>,x),x", "([x;x],x),x", "((x,x),x),(x,x)", "[(x,x);x],x", "x<x,(x,x)>,x", "(),x", "x,()", "x<()>,x"]
    for body in texts:
        marks = "x<" + body + ">"
        W = World(F, 3, 0)
        mods = W.mods()
        mods.pats = [(r, m) for r, m in mods.pats if "get_blocks" not in r.pattern]
        mods.pats.insert(0, (re.compile(r".*str::<impl str>::chars\Z"), lambda I, st, a, c: [(st, ("it", tuple(("t", ("ch", i), CH) for i in range(len(marks)))))]))

        def char(t):
            if t is not None and t[0] == "i":
                return t[1]
            return code.get(marks[t[1][1]], OTHER) if t is not None and t[0] == "t" and t[1][0] == "ch" else None

        def oracle(t):
            if t[0] == "t":
                return char(t)
            if t[0] == "x" and t[1] in ("Eq", "Lt", "Le", "Gt", "Ge", "Ne") and len(t) == 4:
                x, y = char(t[2]), char(t[3])
                if x is not None and y is not None:
                    return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[t[1]]
            if t[0] == "x" and t[1] == "chartest" and t[2] == "is_whitespace" and t[3][0] == "t" and t[3][1][0] == "ch":
                return marks[t[3][1][1]] == " "
            return None

        ps, I = R.paths_of(F, key, args=[w("type")], st=W.st, mods=mods, oracle=oracle)

        def glyphs(v):
            if v is None:
                return None
            if v[0] == "t" and v[1][0] == "ch":
                return "%s%d" % (marks[v[1][1]], v[1][1])
            if v[0] == "s":
                return v[1]
            if v[0] == "x" and v[1] == "disp":
                return glyphs(v[2])
            if v[0] == "x" and v[1] == "fmt":
                xs = [glyphs(x) for x in v[2]]
                return None if None in xs else "".join(xs)
            return None

        want, depth = [""], 0
        for i, m in enumerate(marks[2:-1], 2):
            if m in " &":
                continue
            if m == "," and depth == 0:
                want.append("")
                continue
            depth += (m in OPEN) - (m in CLOSE)
            want[-1] += "%s%d" % (m, i)
        for p in ps or ():
            R.count("splits")
            got = [glyphs(x) for x in p.value[3][0][1]] if p.kind == "return" and is_ok(p.value) and p.value[3][0][0] == "l" else None
            R.check(got == want, "get_blocks:parts", "%s is split into %s" % (marks, got if got is not None else sh(p.value)[:120]), p)


def forms():
    """[(a type as the compiler names it, the fields expected of it, the role)]: every shape of payload, path and name"""
    L = "mpstthree::binary::struct_trait::"
    END = (L + "end::End", "End")

    def sess(kind, pay, cont=END):
        return ("%s%s::%s<%s, %s>" % (L, kind.lower(), kind, pay[0], cont[0]), "%s<%s,%s>" % (kind, pay[1], cont[1]))

    def stack(m, *roles):
        t, x = "mpstthree::role::end::RoleEnd", "RoleEnd"
        for r in reversed(roles):
            t, x = "%srole::%s::Role%s<%s>" % (m, r.lower(), r, t), "Role%s<%s>" % (r, x)
        return t, x

    def mesh(m, me, fields):
        return (
            "%smeshedchannels::MeshedChannels<%s, %sname::%s::Name%s>" % (m, ", ".join(f[0] for f in fields), m, me.lower(), me),
            "MeshedChannels<%s,Role%s<RoleEnd>>" % (",".join(f[1] for f in fields), me),
        )

    def gen(t, *xs):
        return "%s<%s>" % (t[0], ", ".join(x[0] for x in xs)), "%s<%s>" % (t[1], ",".join(x[1] for x in xs))

    def tup(*xs):
        return "(%s)" % ", ".join(x[0] for x in xs), "(%s)" % ",".join(x[1] for x in xs)

    i32, string, option = ("i32", "i32"), ("alloc::string::String", "String"), ("core::option::Option", "Option")
    own = lambda n: ("app::part::%s" % n, n)
    arr = lambda x: ("[%s; 4]" % x[0], "[%s;4]" % x[1])
    payloads = [
        i32, string, own("T"), own("Data_2"), own("FileNameOf"), own("SendMe"), own("RoleModel"), own("Endless"), ("a::b::c::d::e::Deep", "Deep"),
        gen(("alloc::vec::Vec", "Vec"), string), gen(option, gen(("alloc::vec::Vec", "Vec"), own("T"))), gen(("std::collections::HashMap", "HashMap"), string, own("T")),
        tup(i32, i32), tup(string, own("T")), tup(tup(own("T"), i32), string), gen(option, tup(string, string)), arr(("u8", "u8")), arr(own("T")), arr(tup(own("T"), i32)),
        ("()", "()"), ("&str", "str"), ("&app::part::T", "T"),
    ]
    # one path that ends like another
    twins = [(string, ("xalloc::string::String", "String")), (own("T"), own("T2")), (own("T"), ("app::part::T::T", "T")), (("b::T", "T"), ("a::b::T", "T"))]
    lib = "mpstthree::"
    out = []

    def add(m, me, fields, amp=""):
        t, x = mesh(m, me, fields)
        out.append((amp + t, [f[1] for f in fields] + ["Role%s<RoleEnd>" % me], "Role" + me))

    for pay in payloads:
        add(lib, "A", [sess("Send", pay), sess("Recv", pay, sess("Send", i32)), stack(lib, "B", "C")])
        add(lib, "B", [END, sess("Recv", i32, sess("Send", pay, sess("Recv", string))), stack(lib, "C", "C", "C")])
    for a, b in twins:
        for x, y in ((a, b), (b, a)):
            add(lib, "C", [sess("Send", x), sess("Recv", y), stack(lib, "A", "B")])
    for me in ("Al", "X1", "B_2", "client", "R2D2", "A10", "Name", "Z_"):
        add("app::gen::", me, [sess("Send", i32), END, stack("app::gen::", "Bob", "X10")])
    for amp in ("&", "&&"):
        add(lib, "A", [END, END, ("mpstthree::role::end::RoleEnd", "RoleEnd")], amp)
    # a branch inside a type, and what has been read once is read again
    inner = [mesh(lib, "B", [END, sess("Recv", i32), stack(lib, "C")]), mesh(lib, "B", [sess("Send", string), END, stack(lib, "A")])]
    either = gen(("either::Either", "Either"), *inner)
    add(lib, "A", [sess("Send", either), END, stack(lib, "B")])
    for _, x in inner:
        out.append((x, blocks(x[x.index("<") + 1 : -1]), "RoleB"))
    return out


def blocks(t):
    """the fields of a list of types"""
    out, depth = [""], 0
    for c in t:
        depth += (c in "<([") - (c in ">)]")
        if c == "," and depth == 0:
            out.append("")
        else:
            out[-1] += c
    return out


def reader(R, F):
    """clean_session: from what the compiler calls a type to the words the graph is built from"""
    key = A + "clean_session"
    if not R.check(key in F.fns, "anchor:clean_session", "the function that reads a type is gone"):
        return
    for t, want, role in forms():
        W = World(F, 3, 0)
        mods = W.mods()
        mods.pats = [(r, m) for r, m in mods.pats if "aux_checker::clean_session" not in r.pattern]

        def parts(I, st, a, c):
            x = texts.known(I.strip(st, a[0]))
            if x is None or "<" not in x or not x.endswith(">"):
                return None
            x = "".join(x.split()).replace("&", "")
            return [(st, okv(("l", tuple(("s", b) for b in blocks(x[x.index("<") + 1 : -1])))))]

        texts.install(mods)
        mods.pats.insert(0, (re.compile(r".*aux_checker::get_blocks\Z"), parts))
        I = Interp(F, mods, max_paths=200, max_visits=1000)
        I.oracle = W.oracle
        I.single = True
        try:
            ps = I.run(key, [("s", t)], None, W.st)
        except Undecided:
            ps = []
        ps = [p for p in ps if not Check.is_error(p)]
        v = p.value[3][0] if len(ps) == 1 and (p := ps[0]).kind == "return" and is_ok(p.value) else None
        got = [texts.known(x) for x in v[1]] if v is not None and v[0] == "l" else [None]
        if len(ps) != 1 or None in got and ps[0].kind == "return":
            R.count("types not decided")
            continue
        R.count("types cleaned")
        R.check(got == want + [role], "clean_session:%s" % ("name" if got[:-2] == want[:-1] else "fields"), "%s is read as %s, expected %s" % (t, got if got != [None] else sh(ps[0].value)[:100], want + [role]), ps[0])


def taken(R, F):
    key = A + "get_head_payload_continuation"
    if not R.check(key in F.fns, "anchor:get_head_payload_continuation", "the function that takes a type apart is gone"):
        return
    for x in (("s", "End"), ("s", "RoleEnd"), w("type")):
        W = World(F, 3, 0)
        W.blocks[w("type")] = (w("payload"), w("rest"))
        mods = W.mods()
        mods.pats = [(r, m) for r, m in mods.pats if "get_head_payload" not in r.pattern]
        ps, I = R.paths_of(F, key, args=[x], st=W.st, mods=mods, oracle=W.oracle)
        for p in ps or ():
            v = p.value[3][0] if p.kind == "return" and is_ok(p.value) else None
            got = words(v)
            R.count("heads")
            if x == w("type"):
                R.check(v is not None and v[0] == "l" and len(v[1]) == 3 and got[1:] == [w("payload")[1], w("rest")[1]] and got[0] is None, "head:parts", "a type is taken apart as %s" % sh(p.value)[:120], p)
            else:
                R.check(got == [x[1]], "head:end", "%s is taken apart as %s" % (x[1], sh(p.value)[:120]), p)


def run(R, B):
    F = B.facts("lib")
    if not R.check(KEY in F.fns and "body" in F.fns[KEY] and len(F.fns[KEY]["inputs"]) == len(ARGS), "anchor:aux_get_graph", "the function that builds the graphs is gone or has other arguments"):
        return
    for n in (3, 4):
        for cur in range(n):
            for k in range(n - 1):
                for head in ("Send", "Recv"):
                    step(R, F, n, cur, k, head)
        end(R, F, n)
    for head in ("End", "RoleX"):
        refused(R, F, head)
    for cur in range(3):
        choice(R, F, 3, cur, None)
        for k in range(2):
            choice(R, F, 3, cur, k)
    session(R, F)
    sessions(R, F)
    dual(R, F)
    splitter(R, F)
    reader(R, F)
    taken(R, F)
    chkmacro.run(R, B.facts("chk"))
    shapes = whole(R, F)
    if not R.check(shapes is not None, "checker:shapes", "the types of branches are not handed on in one form"):
        return
    for cur in range(3):
        for k in range(2):
            for seen in ((), (0, 1), (0,), (1,)):
                recursive(R, F, 3, cur, k, seen, (0, 1), shapes)
            recursive(R, F, 3, cur, k, (), (1, 0), shapes)
        recursive(R, F, 3, cur, None, (), (1, 0), shapes, broadcast=True)
        for seen in ((), (0, 1), (0,)):
            recursive(R, F, 3, cur, None, seen, (0, 1), shapes, broadcast=True)
