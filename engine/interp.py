"""Trace-partitioned abstract interpretation of the dumped MIR.

Values
  ('i', n)                    known integer / bool / char
  ('s', str) ('b', bytes)     known string / byte string
  ('a', kind, variant, flds)  known aggregate; kind is ('adt', key, targs),
                              ('tuple',), ('array',) or ('closure', key, targs)
  ('l', items)                known list (Vec, boxed slice)
  ('it', items)               iterator over known items
  ('t', id, ty)               opaque token, identity = id
  ('x', op, args...)          pure term over values
  ('r', cell, path)           reference
  ('f', key, nice, trait, targs, res)   function item
  None                        uninitialised
"""
import sys

sys.setrecursionlimit(20000)

UNIT = ("a", ("tuple",), 0, ())
TRUE = ("i", 1)
FALSE = ("i", 0)
RESULT = "core::result::Result"
OPTION = "core::option::Option"


def adt(key, variant, *flds):
    return ("a", ("adt", key, ()), variant, tuple(flds))


def ok(v):
    return adt(RESULT, 0, v)


def err(v):
    return adt(RESULT, 1, v)


def some(v):
    return adt(OPTION, 1, v)


NONE = adt(OPTION, 0)


def tup(*v):
    return ("a", ("tuple",), 0, tuple(v))


class Undecided(Exception):
    """the analysis met something it cannot interpret"""


def places(x, out):
    """locals a piece of an instruction may read (over-approximated)"""
    if isinstance(x, tuple):
        if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], tuple):
            out.add(x[0])
            for p in x[1]:
                if isinstance(p, tuple) and p and p[0] not in ("f", "d"):
                    for y in p[1:]:
                        if isinstance(y, int):
                            out.add(y)
            return
        for y in x:
            places(y, out)


class State:
    __slots__ = ("mem", "tags", "conds", "trace", "n", "owned")

    def __init__(self):
        self.mem = {}
        self.tags = {}
        self.conds = {}
        self.trace = None
        self.n = 0

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.tags = dict(self.tags)
        s.conds = dict(self.conds)
        s.trace = self.trace
        s.n = self.n
        return s

    def fresh(self):
        self.n += 1
        return self.n

    def event(self, *ev):
        self.trace = (self.trace, ev)

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Path:
    def __init__(self, st, kind, value, site):
        self.st = st
        self.kind = kind  # return | panic | cut | exit
        self.value = value
        self.site = site
        self.events = st.events()
        self.tags = st.tags
        self.conds = st.conds

    def ev(self, *kinds):
        return [e for e in self.events if e[0] in kinds]


class Interp:
    def __init__(self, facts, models, max_paths=20000, opaque=(), max_visits=64, depth=60):
        self.F = facts
        self.models = models
        self.max_paths = max_paths
        self.oracle = None  # truth of a condition in the situation under analysis, or None
        self.single = False  # every test is expected to be decided: give up at the first that is not
        self.opaque = opaque  # predicate(nice, key) -> treat as unknown call
        self.finished = []
        self.stack = []
        self.analysed = set()
        self.unknown = {}
        self.argmut = None
        self.max_visits = max_visits
        self.depth = depth
        self.callsites = set()
        self.hook = None
        self.merge = None  # (function key, summary of the history of a state)
        self.merged = set()

    # ------------------------------------------------------------ top level
    def run(self, key, args=None, env=None, st=None):
        """all paths of function `key`; arguments default to opaque tokens"""
        f = self.F.fns[key]
        if "body" not in f:
            raise Undecided("no body for %s" % key)
        self.finished = []
        st = st or State()
        env = env or {}
        if args is None:
            args = []
            for i in range(f["body"]["argc"]):
                ty = self.F.subst(f["body"]["locals"][i + 1][0], env)
                args.append(self.arg_token(st, ("arg", i), ty))
        outs = self.exec_fn(st, key, env, args)
        for s, v in outs:
            self.finished.append(Path(s, "return", v, None))
        return self.finished

    def arg_token(self, st, id_, ty):
        ty = self.F.norm(ty) if ty else ty
        return ("t", id_, ty)

    # ------------------------------------------------------------ memory
    def load(self, st, cell, path):
        v = st.mem.get(cell)
        return self.get_path(st, v, path)

    def get_path(self, st, v, path):
        variant = None
        for p in path:
            if p[0] == "d":
                variant = p[1]
                continue
            v = self.proj(st, v, p, variant)
            variant = None
        if variant is not None:
            return v
        return v

    def proj(self, st, v, p, variant):
        if v is None:
            return None
        k = v[0]
        if p[0] == "f":
            i = p[1]
            if k == "a":
                if variant is not None and v[1][0] == "adt" and v[2] != variant:
                    return None
                return v[3][i] if i < len(v[3]) else None
            if k == "t":
                va = variant or 0
                if v[1][0] == "clos":
                    pass
                return self.fld(v, va, i)
            if k == "r":
                return v  # Box / Unique / NonNull wrappers
            if k in ("l", "it"):
                return v
            if k == "x":
                return ("x", "fld", v, variant or 0, i)
            return ("x", "fld", v, variant or 0, i)
        if p[0] == "i":
            idx = p[1]
            if k == "a" and idx[0] == "i":
                return v[3][idx[1]] if idx[1] < len(v[3]) else None
            if k == "l" and idx[0] == "i":
                return v[1][idx[1]] if idx[1] < len(v[1]) else None
            ety = None
            if k == "t" and v[2] and v[2][0] in ("array", "slice"):
                ety = v[2][1]
            return ("t", ("idx", v, idx), ety)
        if p[0] == "ci":
            items = v[3] if k == "a" else v[1] if k == "l" else None
            if items is not None:
                i = len(items) - p[1] if p[3] else p[1]
                return items[i] if 0 <= i < len(items) else None
            return ("t", ("idx", v, ("i", -p[1] if p[3] else p[1])), None)
        if p[0] == "sub":
            items = v[3] if k == "a" else v[1] if k == "l" else None
            if items is not None:
                end = len(items) - p[2] if p[3] else p[2]
                return ("l", tuple(items[p[1] : end]))
            return ("t", ("sub", v, p[1], p[2], p[3]), None)
        return ("x", "proj", v, p)

    def fld(self, tok, variant, i):
        return ("t", ("fld", tok, variant, i), self.F.field_ty(tok[2], variant, i))

    def expand(self, st, v, ty, variant=0):
        """opaque token (or uninit) -> aggregate of its fields"""
        if v is not None and v[0] == "a":
            return v
        if v is not None and v[0] == "t":
            ty = v[2] or ty
            n = self.F.nfields(ty, variant)
            if n is None:
                n = 12
            kind = ("adt", ty[1], ty[2]) if ty and ty[0] == "adt" else ("tuple",)
            return ("a", kind, variant, tuple(self.fld(v, variant, i) for i in range(n)))
        n = self.F.nfields(ty, variant)
        if n is None:
            n = 12
        kind = ("adt", ty[1], ty[2]) if ty and ty[0] == "adt" else ("tuple",)
        return ("a", kind, variant, tuple([None] * n))

    def set_path(self, st, v, path, new, ty):
        if not path:
            return new
        p = path[0]
        if p[0] == "d":
            if len(path) == 1:
                return new
            variant = p[1]
            a = self.expand(st, v, ty, variant)
            if a[2] != variant:
                n = self.F.nfields(ty, variant) or len(a[3])
                a = ("a", a[1], variant, tuple([None] * n))
            return self.set_path(st, a, path[1:], new, ty)
        if p[0] == "f":
            if v is not None and v[0] in ("r", "l", "it"):
                return self.set_path(st, v, path[1:], new, None) if len(path) > 1 else new
            a = self.expand(st, v, ty, 0)
            i = p[1]
            fl = list(a[3])
            while len(fl) <= i:
                fl.append(None)
            fl[i] = self.set_path(st, fl[i], path[1:], new, self.F.field_ty(ty, a[2], i))
            return ("a", a[1], a[2], tuple(fl))
        if p[0] == "i" and v is not None and v[0] in ("a", "l") and p[1][0] == "i":
            items = list(v[3] if v[0] == "a" else v[1])
            if p[1][1] < len(items):
                items[p[1][1]] = self.set_path(st, items[p[1][1]], path[1:], new, None)
            return ("a", v[1], v[2], tuple(items)) if v[0] == "a" else ("l", tuple(items))
        return ("t", ("upd", st.fresh()), ty)

    def store(self, st, cell, path, new):
        if not path:
            st.mem[cell] = new
            return
        ty = st.mem.get(("ty", cell))
        st.mem[cell] = self.set_path(st, st.mem.get(cell), path, new, ty)

    def deref_loc(self, st, v):
        """location denoted by a reference value"""
        if v is None:
            raise Undecided("dereference of an uninitialised value")
        if v[0] == "r":
            return v[1], v[2]
        # opaque reference: its pointee is a cell of its own
        cell = ("pt", v)
        if cell not in st.mem:
            ty = None
            if v[0] == "t" and v[2] and v[2][0] in ("ref", "ptr"):
                ty = v[2][2]
            elif v[0] == "t" and v[2] and v[2][0] == "adt" and v[2][1] == "alloc::boxed::Box":
                ty = v[2][2][0]
            if v[0] in ("s", "l", "b", "a", "f", "it"):
                st.mem[cell] = v
            elif v[0] == "x":
                st.mem[cell] = v
            else:
                st.mem[cell] = ("t", ("deref", v[1]), ty)
        return cell, ()

    def resolve(self, st, fr, place):
        cell, path = ("L", fr, place[0]), ()
        for p in place[1]:
            if p == "*":
                v = self.load(st, cell, path)
                cell, path = self.deref_loc(st, v)
            elif p == "?":
                pass
            elif p[0] == "i":
                path = path + (("i", st.mem.get(("L", fr, p[1]))),)
            else:
                path = path + (p,)
        return cell, path

    def read(self, st, fr, place):
        if not place[1]:
            return st.mem.get(("L", fr, place[0]))
        c, p = self.resolve(st, fr, place)
        return self.load(st, c, p)

    def write(self, st, fr, place, v):
        if not place[1]:
            st.mem[("L", fr, place[0])] = v
            return
        c, p = self.resolve(st, fr, place)
        self.store(st, c, p, v)

    def strip(self, st, v, n=8):
        """follows references"""
        while v is not None and v[0] == "r" and n:
            v = self.load(st, v[1], v[2])
            n -= 1
        if v is not None and v[0] == "t" and v[2] and v[2][0] == "ref" and n:
            c, p = self.deref_loc(st, v)
            return self.strip(st, self.load(st, c, p), n - 1)
        return v

    # ------------------------------------------------------------ operands
    def const(self, st, c, env, fkey):
        k = c[0]
        if k == "int":
            return ("i", c[1])
        if k == "str":
            return ("s", c[1])
        if k == "bytes":
            return ("b", c[1])
        if k == "fn":
            res = c[5]
            targs = tuple(self.F.subst(x, env) for x in c[4])
            if res is not None and res[0] == "item":
                res = ("item", res[1], tuple(self.F.subst(x, env) for x in res[2]))
            return ("f", c[1], c[2], c[3], targs, res)
        if k == "zst":
            t = self.F.subst(c[1], env)
            if t[0] == "tuple":
                return UNIT
            if t[0] == "adt":
                return ("a", t, 0, ())
            if t[0] == "closure":
                return ("a", t, 0, ())
            return ("t", ("zst", t), t)
        if k == "cparam":
            v = env.get(c[1])
            if v is not None and v[0] == "cval":
                return ("i", int(v[1])) if v[1].lstrip("-").isdigit() else ("t", ("cval", v[1]), c[2])
            if v is not None and v[0] == "cparam":
                return ("t", ("cparam", v[1]), c[2])
            return ("t", ("cparam", c[1]), c[2])
        if k == "promoted":
            e = dict(zip(self.F.fns[c[1]]["generics"], (self.F.subst(x, env) for x in c[3]))) if c[1] in self.F.fns else {}
            f = self.F.fns.get(c[1])
            if f is None or c[2] >= len(f.get("promoted", [])):
                return ("t", ("promoted", c[1], c[2]), c[4])
            outs = self.exec_body(st, f["promoted"][c[2]], c[1] + "#p%d" % c[2], e or env, [])
            if len(outs) != 1:
                raise Undecided("promoted constant with several outcomes")
            s2, v = outs[0]
            st.mem = s2.mem
            st.n = s2.n
            return v
        if k == "constitem":
            f = self.F.fns.get(c[1])
            if f and "body" in f:
                e = dict(zip(f["generics"], (self.F.subst(x, env) for x in c[2])))
                outs = self.exec_body(st, f["body"], c[1], e, [])
                if len(outs) == 1:
                    s2, v = outs[0]
                    st.mem = s2.mem
                    st.n = s2.n
                    return v
            return ("t", ("constitem", c[1]), self.F.subst(c[3], env))
        if k in ("static", "alloc"):
            return ("t", (k, c[1]), self.F.subst(c[2], env))
        return ("t", ("const", k, fkey), self.F.subst(c[1], env) if len(c) > 1 else None)

    def operand(self, st, fr, o, env, fkey):
        if o[0] in ("c", "m"):
            return self.read(st, fr, o[1])
        if o[0] == "k":
            return self.const(st, o[1], env, fkey)
        return ("i", 0)

    # ------------------------------------------------------------ pure terms
    def cmp_norm(self, op, a, b):
        """-> (term, negated)"""
        if op == "Gt":
            return ("x", "Lt", b, a), False
        if op == "Ge":
            return ("x", "Lt", a, b), True
        if op == "Le":
            return ("x", "Lt", b, a), True
        if op == "Ne":
            if repr(a) > repr(b):
                a, b = b, a
            return ("x", "Eq", a, b), True
        if op == "Eq":
            if repr(a) > repr(b):
                a, b = b, a
            return ("x", "Eq", a, b), False
        return ("x", op, a, b), False

    def binop(self, st, op, a, b):
        if a is not None and b is not None and a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            base = op.replace("WithOverflow", "").replace("Unchecked", "")
            try:
                r = {
                    "Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                    "Div": lambda: x // y, "Rem": lambda: x % y, "BitXor": lambda: x ^ y,
                    "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "Shl": lambda: x << y, "Shr": lambda: x >> y,
                    "Eq": lambda: int(x == y), "Ne": lambda: int(x != y), "Lt": lambda: int(x < y),
                    "Le": lambda: int(x <= y), "Gt": lambda: int(x > y), "Ge": lambda: int(x >= y),
                    "Cmp": lambda: (x > y) - (x < y),
                }[base]()
            except (KeyError, ZeroDivisionError):
                return ("x", op, a, b)
            if op.endswith("WithOverflow"):
                return tup(("i", r), ("i", 1 if r < 0 and base == "Sub" else 0))
            return ("i", r)
        if op.endswith("WithOverflow"):
            return tup(("x", op[: -len("WithOverflow")], a, b), ("i", 0))
        if op in ("Eq", "Ne") and a is not None and b is not None:
            if a == b:
                return ("i", int(op == "Eq"))
            if a[0] == "s" and b[0] == "s":
                return ("i", int((a[1] == b[1]) == (op == "Eq")))
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            t, neg = self.cmp_norm(op, a, b)
            v = self.known(st, t)
            if v is not None:
                return ("i", int(bool(v) != neg))
            return self.neg(t) if neg else t
        if op in ("BitAnd", "BitOr"):
            for p, q in ((a, b), (b, a)):
                if p is not None and p[0] == "i" and p[1] in (0, 1):
                    if op == "BitAnd":
                        return q if p[1] else ("i", 0)
                    return ("i", 1) if p[1] else q
        return ("x", op, a, b)

    def neg(self, t):
        if t[0] == "i":
            return ("i", 1 - t[1])
        if t[0] == "x" and t[1] == "Not":
            return t[2]
        return ("x", "Not", t)

    def known(self, st, t):
        """truth value of a boolean term on this path, if fixed"""
        if t[0] == "i":
            return t[1]
        if t in st.conds:
            return st.conds[t]
        if self.oracle is not None:
            v = self.oracle(t)
            if v is not None:
                return int(v)
        if t[0] == "x":
            if t[1] == "Not":
                v = self.known(st, t[2])
                return None if v is None else 1 - v
            if t[1] == "Eq":
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    if y is not None and y[0] == "i" and x is not None:
                        if x in st.conds:
                            return int(st.conds[x] == y[1])
                        d = self.discr_known(st, x)
                        if d is not None:
                            return int(d == y[1])
                        ne = st.conds.get(("ne", x))
                        if ne and y[1] in ne:
                            return 0
            if t[1] in ("BitAnd", "BitOr"):
                a, b = self.known(st, t[2]), self.known(st, t[3])
                if t[1] == "BitAnd":
                    if a == 0 or b == 0:
                        return 0
                    if a == 1 and b == 1:
                        return 1
                else:
                    if a == 1 or b == 1:
                        return 1
                    if a == 0 and b == 0:
                        return 0
        return None

    def discr_known(self, st, x):
        if x[0] == "x" and x[1] == "discr":
            tok = x[2]
            if tok in st.tags:
                return self.discr_of(tok, st.tags[tok])
        return None

    def discr_of(self, tok, variant):
        ty = tok[2] if tok[0] == "t" else None
        if ty and ty[0] == "adt" and ty[1] in self.F.adts:
            return int(self.F.adts[ty[1]]["variants"][variant][1])
        return variant

    def discriminant(self, st, v):
        if v is None:
            return None
        if v[0] == "a":
            k = v[1]
            if k[0] == "adt" and k[1] in self.F.adts:
                return ("i", int(self.F.adts[k[1]]["variants"][v[2]][1]))
            return ("i", v[2])
        if v in st.tags:
            return ("i", self.discr_of(v, st.tags[v]))
        return ("x", "discr", v)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, env, fkey, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1], env, fkey)
        if k == "ref":
            c, p = self.resolve(st, fr, r[2])
            if not p:
                v = st.mem.get(c)
                # &*x of a plain string/list constant keeps the value
                if c[0] == "pt" and v is not None and v[0] in ("s", "b") and v == c[1]:
                    return v
            return ("r", c, p)
        if k == "agg":
            vals = tuple(self.operand(st, fr, o, env, fkey) for o in r[2])
            a = r[1]
            if a[0] == "adt":
                return ("a", ("adt", a[1], tuple(self.F.subst(x, env) for x in a[3])), a[2], vals)
            if a[0] == "tuple":
                return ("a", ("tuple",), 0, vals)
            if a[0] == "array":
                return ("a", ("array",), 0, vals)
            if a[0] == "closure":
                return ("a", ("closure", a[1], tuple(self.F.subst(x, env) for x in a[2])), 0, vals)
            if a[0] == "rawptr" and vals:
                return vals[0]
            return ("t", ("agg", st.fresh()), None)
        if k == "discr":
            return self.discriminant(st, self.read(st, fr, r[1]))
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2], env, fkey), self.operand(st, fr, r[3], env, fkey))
        if k == "un":
            v = self.operand(st, fr, r[2], env, fkey)
            if r[1] == "Not":
                if v is not None and v[0] == "i":
                    return ("i", 1 - v[1]) if v[1] in (0, 1) else ("i", ~v[1])
                return self.neg(v)
            if r[1] == "Neg":
                return ("i", -v[1]) if v[0] == "i" else ("x", "Neg", v)
            if r[1] == "PtrMetadata":
                w = self.strip(st, v)
                return self.length(w)
            return ("x", r[1], v)
        if k == "cast":
            v = self.operand(st, fr, r[2], env, fkey)
            if v is None:
                return None
            c = r[1]
            if c.startswith("PointerCoercion") or c.startswith("Transmute") or c.startswith("PtrToPtr") or c.startswith("Subtype") or c.startswith("BoxDeref"):
                return v
            if c == "IntToInt":
                if v[0] == "x" and v[1] == "discr":
                    return v
                return v if v[0] in ("i",) else ("x", "as", v, r[3][1] if r[3] and len(r[3]) > 1 else None)
            return ("x", "cast", c, v)
        if k == "repeat":
            v = self.operand(st, fr, r[1], env, fkey)
            c = self.F.subst(tuple(r[2]), env)
            if c[0] == "cval" and c[1].isdigit() and int(c[1]) < 200:
                return ("a", ("array",), 0, tuple([v] * int(c[1])))
            return ("t", ("repeat", v, c), dty)
        return ("t", ("rv", k, st.fresh()), dty)

    def length(self, w):
        if w is None:
            return None
        if w[0] == "a" and w[1][0] == "array":
            return ("i", len(w[3]))
        if w[0] in ("l", "it", "b"):
            return ("i", len(w[1]))
        if w[0] == "s":
            return ("i", len(w[1].encode()))
        if w[0] == "t" and w[1][0] == "pushed":
            return self.binop(None, "Add", self.length(w[1][1]), ("i", 1))
        return ("x", "len", w)

    # ------------------------------------------------------------ execution
    def exec_fn(self, st, key, env, args):
        f = self.F.fns[key]
        if len(self.stack) > self.depth or self.stack.count(key) > 3:
            raise Undecided("recursion too deep at %s" % key)
        self.analysed.add(key)
        self.stack.append(key)
        try:
            return self.exec_body(st, f["body"], key, env, args)
        finally:
            self.stack.pop()

    def exec_body(self, st, body, key, env, args):
        fr = st.fresh()
        locs = body["locals"]
        for i, a in enumerate(args):
            st.mem[("L", fr, i + 1)] = a
        for i, (t, _) in enumerate(locs):
            st.mem[("ty", ("L", fr, i))] = self.F.subst(t, env)
        work = [(st, 0, {})]
        outs = []
        count = 0
        while work:
            st, b, visits = work.pop()
            count += 1
            if count > self.max_paths * 40 or len(self.finished) > self.max_paths or len(outs) > self.max_paths:
                raise Undecided("too many paths in %s" % key)
            c = visits.get(b)
            if self.merge and self.merge[0] == key and self.is_join(body, b):
                # one exploration per loop state and per summary of the history (self.merge[1])
                g = self.merge[1](st)
                # a history that is already refused need not be told from another one
                if g and g[0] == "bad":
                    canon = (b, None, g)
                elif len(self.merge) > 2:
                    # only the part of the state the rule depends on (self.merge[2])
                    canon = (b, self.merge[2](st, [st.mem.get(("L", fr, i)) for i in sorted(self.live_in(body, b, False))]), g)
                else:
                    canon = (b, self.canon(st, fr, locs, self.live_in(body, b, False)), g)
                if canon in self.merged:
                    self.finished.append(Path(st, "cut", None, (key, b)))
                    continue
                if len(self.merged) > self.max_paths:
                    raise Undecided("loop in %s does not stabilise" % key)
                self.merged.add(canon)
            elif c is not None:
                canon = self.canon(st, fr, locs, self.live_in(body, b))
                if canon in c:
                    self.finished.append(Path(st, "cut", None, (key, b)))
                    continue
                if len(c) > self.max_visits:
                    raise Undecided("loop in %s does not stabilise" % key)
                visits = dict(visits)
                visits[b] = c | {canon}
            elif self.is_head(body, b):
                visits = dict(visits)
                visits[b] = frozenset([self.canon(st, fr, locs, self.live_in(body, b))])
            stm, term = body["blocks"][b]
            for s in stm:
                if s[0] == "=":
                    dty = st.mem.get(("ty", ("L", fr, s[1][0]))) if not s[1][1] else None
                    self.write(st, fr, s[1], self.rvalue(st, fr, s[2], env, key, dty))
                else:
                    v = self.read(st, fr, s[1])
                    ty = None
                    if not s[1][1]:
                        ty = st.mem.get(("ty", ("L", fr, s[1][0])))
                    if v is not None and v[0] == "a":
                        v = ("a", v[1], s[2], v[3])
                    else:
                        v = self.expand(st, None, ty, s[2])
                    self.write(st, fr, s[1], v)
            k = term[0]
            if k == "goto":
                work.append((st, term[1], visits))
            elif k == "return":
                outs.append((st, st.mem.get(("L", fr, 0))))
            elif k == "unreachable":
                pass
            elif k == "drop":
                v = self.read(st, fr, term[1])
                if v is not None and v[0] in ("a", "t", "r", "l", "it") and v != UNIT:
                    ty = None
                    if not term[1][1]:
                        ty = locs[term[1][0]][0]
                    st.event("drop", v, (key, b))
                work.append((st, term[2], visits))
            elif k == "assert":
                c = self.operand(st, fr, term[1], env, key)
                kv = self.known(st, c) if c is not None else None
                if kv is not None and bool(kv) != term[2]:
                    self.finished.append(Path(st, "panic", ("s", term[4]), (key, b, term[5])))
                else:
                    work.append((st, term[3], visits))
            elif k == "switch":
                nexts = list(self.switch(st, fr, term, env, key))
                if self.single and len(nexts) > 1:
                    raise Undecided("a test of %s is not decided" % key)
                for s2, nb in nexts:
                    work.append((s2, nb, visits))
            elif k in ("call", "tailcall"):
                f = self.operand(st, fr, term[1], env, key)
                av = [self.operand(st, fr, o, env, key) for o in term[2]]
                if k == "call":
                    dest, target, ln = term[3], term[4], term[5]
                    dty = self.place_ty(st, fr, dest)
                else:
                    dest, target, ln, dty = (0, ()), None, term[3], self.F.subst(locs[0][0], env)
                site = (key, b, ln)
                self.callsites.add((key, b))
                self.argmut = [self.operand_ty(st, fr, o) for o in term[2]]
                for s2, v in self.call(st, f, av, dty, site, diverges=(k == "call" and target is None)):
                    if k == "tailcall":
                        outs.append((s2, v))
                        continue
                    if target is None:
                        self.finished.append(Path(s2, "panic", v, site))
                        continue
                    self.write(s2, fr, dest, v)
                    work.append((s2, target, visits))
            else:
                raise Undecided("terminator %s in %s" % (term[1], key))
        return outs

    def operand_ty(self, st, fr, o):
        return self.place_ty(st, fr, o[1]) if o[0] in ("c", "m") else None

    def place_ty(self, st, fr, place):
        t = st.mem.get(("ty", ("L", fr, place[0])))
        variant = 0
        for p in place[1]:
            if p == "*":
                t = t[2] if t and t[0] in ("ref", "ptr") else None
            elif p != "?" and p[0] == "d":
                variant = p[1]
            elif p != "?" and p[0] == "f":
                t = self.F.field_ty(t, variant, p[1])
                variant = 0
            else:
                t = None
        return t

    def is_head(self, body, b):
        h = body.get("_heads")
        if h is None:
            # targets of back edges of a DFS
            h = set()
            color = {}
            stack = [(0, iter(self.succ(body, 0)))]
            color[0] = 1
            while stack:
                n, it = stack[-1]
                for s in it:
                    if color.get(s) == 1:
                        h.add(s)
                    elif s not in color:
                        color[s] = 1
                        stack.append((s, iter(self.succ(body, s))))
                        break
                else:
                    color[n] = 2
                    stack.pop()
            body["_heads"] = h
        return b in h

    def is_join(self, body, b):
        j = body.get("_joins")
        if j is None:
            n = {}
            for i in range(len(body["blocks"])):
                for s in self.succ(body, i):
                    n[s] = n.get(s, 0) + 1
            j = body["_joins"] = {s for s, k in n.items() if k > 1}
        return b in j

    def succ(self, body, b):
        blk = body["blocks"][b]
        if blk is None:
            return []
        t = blk[1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x for _, x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "assert":
            return [t[3]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        return []

    def live_in(self, body, b, drops=True):
        """locals that may be read (drops: or dropped) before they are overwritten from the start of block b"""
        name = "_live" if drops else "_lived"
        live = body.get(name)
        if live is None:
            n = len(body["blocks"])
            use, kill = [], []
            for blk in body["blocks"]:
                u, k = set(), set()
                if blk is not None:
                    for s in blk[0]:
                        r = set()
                        if s[0] == "=":
                            places(s[2], r)
                            if s[1][1]:
                                places(s[1], r)
                            u |= r - k
                            if not s[1][1]:
                                k.add(s[1][0])
                        else:
                            places(s[1:], r)
                            u |= r - k
                    r = set()
                    t = blk[1]
                    if t[0] == "return":
                        r.add(0)
                    elif t[0] == "call":
                        places(t[1:3], r)
                        if t[3] and t[3][1]:
                            places(t[3], r)
                    elif t[0] != "drop" or drops or t[1][1]:
                        places(t[1:], r)
                    u |= r - k
                    if t[0] == "call" and t[3] and not t[3][1]:
                        k.add(t[3][0])
                use.append(u)
                kill.append(k)
            live = [set(u) for u in use]
            ch = True
            while ch:
                ch = False
                for i in range(n - 1, -1, -1):
                    for s in self.succ(body, i):
                        x = live[s] - kill[i]
                        if not x <= live[i]:
                            live[i] |= x
                            ch = True
            body[name] = live
        return live[b]

    def canon(self, st, fr, locs, live):
        """memory reachable from the live locals of this frame, tokens renamed in order of first appearance"""
        ren = {}
        cells = {}
        out = []
        pend = []

        def nm(x):
            if isinstance(x, tuple):
                if x and x[0] == "r" and len(x) == 3:
                    c = x[1]
                    if c not in cells:
                        cells[c] = len(cells)
                        pend.append(c)
                    return ("r", cells[c], tuple(nm(y) for y in x[2]))
                if x and x[0] == "t" and len(x) == 3:
                    if x not in ren:
                        ren[x] = len(ren)
                        ids = idshape(x[1])
                        tag = st.tags.get(x)
                        ne = st.conds.get(("ne", ("x", "discr", x)))
                        return ("t!", ren[x], ids, tag, ne)
                    return ("t", ren[x])
                return tuple(nm(y) for y in x)
            return x

        def idshape(i):
            if isinstance(i, tuple):
                return tuple("#" if isinstance(y, int) and not isinstance(y, bool) and n > 0 and i[0] not in ("fld", "arg") else nm(y) if isinstance(y, tuple) else y for n, y in enumerate(i))
            return i

        for i in sorted(live):
            out.append(nm(st.mem.get(("L", fr, i))))
        while pend:
            c = pend.pop(0)
            if c[0] == "L" and c[1] == fr and c[2] in live:
                continue
            out.append(nm(st.mem.get(c)))
        # conditions over live tokens
        return repr(out)

    def switch(self, st, fr, term, env, key):
        v = self.operand(st, fr, term[1], env, key)
        targets, other = term[2], term[3]
        body = None
        if v is None:
            raise Undecided("switch on an uninitialised value in %s" % key)
        if v[0] == "i":
            for n, b in targets:
                if n == v[1] or (v[1] < 0 and n == v[1] % (1 << 128)) or (v[1] < 0 and n in (v[1] % (1 << 64), v[1] % (1 << 32), v[1] % (1 << 8), v[1] % (1<<16))):
                    return [(st, b)]
            return [(st, other)]
        out = []
        if v[0] == "x" and v[1] == "discr":
            tok = v[2]
            ty = tok[2] if tok[0] == "t" else None
            if ty and ty[0] == "adt" and ty[1] in self.F.adts and self.F.adts[ty[1]]["kind"] == "enum":
                vs = self.F.adts[ty[1]]["variants"]
                tm = {n: b for n, b in targets}
                for i, (_, d, _f) in enumerate(vs):
                    b = tm.get(int(d), other)
                    if self.dead(key, b):
                        continue
                    s2 = st.fork()
                    s2.tags[tok] = i
                    out.append((s2, b))
                return out
        # boolean or integer term
        neg = False
        t = v
        if t[0] == "x" and t[1] == "Not":
            neg, t = True, t[2]
        k = self.known(st, t)
        if k is not None:
            k = (1 - k) if neg else k
            for n, b in targets:
                if n == k:
                    return [(st, b)]
            return [(st, other)]
        isbool = [n for n, _ in targets] == [0] and self.boolish(t)
        if isbool and t[0] == "x" and t[1] == "Eq":
            # a comparison of a tag with a constant decides the tag
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if x is not None and x[0] == "x" and x[1] == "discr" and y is not None and y[0] == "i":
                    tok = x[2]
                    ty = tok[2] if tok[0] == "t" else None
                    if ty and ty[0] == "adt" and ty[1] in self.F.adts and self.F.adts[ty[1]]["kind"] == "enum":
                        for i, (_, d, _f) in enumerate(self.F.adts[ty[1]]["variants"]):
                            val = int((int(d) == y[1]) != neg)
                            b = targets[0][1] if val == 0 else other
                            if not self.dead(key, b):
                                s2 = st.fork()
                                s2.tags[tok] = i
                                out.append((s2, b))
                        return out
        if isbool:
            for val in (0, 1):
                s2 = st.fork()
                s2.conds[t] = (1 - val) if neg else val
                s2.event("cond", t, s2.conds[t], (key,))
                b = targets[0][1] if val == 0 else other
                if not self.dead(key, b):
                    out.append((s2, b))
            return out
        for n, b in targets:
            if self.dead(key, b):
                continue
            s2 = st.fork()
            s2.conds[t] = n
            s2.event("cond", t, n, (key,))
            out.append((s2, b))
        if not self.dead(key, other):
            s2 = st.fork()
            s2.conds[("ne", t)] = frozenset(n for n, _ in targets) | s2.conds.get(("ne", t), frozenset())
            s2.event("cond", t, ("ne", tuple(n for n, _ in targets)), (key,))
            out.append((s2, other))
        return out

    def boolish(self, t):
        if t[0] == "x":
            return t[1] in ("Lt", "Eq", "BitAnd", "BitOr", "BitXor", "pred") or t[1].startswith("is_") or t[1] not in ("discr", "len", "Add", "Sub", "Mul", "Div", "as", "Rem", "Cmp")
        if t[0] == "t":
            return t[2] is None or t[2] == ("prim", "bool")
        return True

    def dead(self, key, b):
        f = self.F.fns.get(key)
        if f is None:
            return False
        blk = f["body"]["blocks"][b] if b < len(f["body"]["blocks"]) else None
        return blk is not None and not blk[0] and blk[1][0] == "unreachable"

    # ------------------------------------------------------------ calls
    def call(self, st, f, args, dty, site, diverges=False):
        if f is None:
            raise Undecided("call of an uninitialised value at %s" % (site,))
        if f[0] == "r":
            f = self.strip(st, f)
        if f[0] == "f":
            return self.call_fn(st, f, args, dty, site, diverges)
        if f[0] == "a" and f[1][0] == "closure":
            return self.call_closure(st, f, None, args, dty, site)
        return self.invoke(st, f, args, dty, site)

    def invoke(self, st, f, args, dty, site):
        """call of a caller-supplied function"""
        n = st.fresh()
        tok = ("t", ("ret", n), dty)
        st.event("invoke", f, tuple(args), tok, site)
        return [(st, tok)]

    def call_closure(self, st, clos, selfref, args, dty, site):
        key = clos[1][1]
        fd = self.F.fns.get(key)
        if fd is None or "body" not in fd:
            raise Undecided("closure %s has no body" % key)
        env = dict(zip(fd["generics"], clos[1][2]))
        body = fd["body"]
        selfty = body["locals"][1][0]
        if selfty[0] == "ref":
            if selfref is None:
                cell = ("H", st.fresh())
                st.mem[cell] = clos
                selfref = ("r", cell, ())
            first = selfref
        else:
            first = clos
        return self.exec_fn(st, key, env, [first] + list(args))

    def apply(self, st, f, args, dty=None, site=None):
        """calls a function value with plain arguments (used by models)"""
        ref = None
        g = f
        if f is not None and f[0] == "r":
            ref = f
            g = self.strip(st, f)
            # innermost reference
            while True:
                w = self.load(st, ref[1], ref[2])
                if w is not None and w[0] == "r":
                    ref = w
                else:
                    break
        if g is not None and g[0] == "a" and g[1][0] == "closure":
            return self.call_closure(st, g, ref, args, dty, site)
        if g is not None and g[0] == "f":
            return self.call_fn(st, g, args, dty, site)
        return self.invoke(st, g if g is not None else f, args, dty, site)

    def call_fn(self, st, f, args, dty, site, diverges=False):
        _, key, nice, trait, targs, res = f
        muts, self.argmut = self.argmut, None
        # enum/struct constructors used as functions
        if "{constructor" in key or key.endswith("{ctor}"):
            return [(st, self.ctor(key, targs, args, dty))]
        m = self.models.find(nice, key, trait)
        if m is not None:
            r = m(self, st, args, Ctx(f, dty, site, nice, targs))
            if r is not None:
                return r
        if trait in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn") and nice.rsplit("::", 1)[1] in ("call", "call_mut", "call_once"):
            a = args[1]
            if a is not None and a[0] == "a":
                a = list(a[3])
            elif a is not None and a[0] == "t" and a[2] and a[2][0] == "tuple":
                a = [self.fld(a, 0, i) for i in range(len(a[2][1]))]
            else:
                a = [a]
            return self.apply(st, args[0], a, dty, site)
        k2, env = None, None
        if res is not None and res[0] == "item":
            k2 = res[1]
            fd = self.F.fns.get(k2)
            if fd:
                env = dict(zip(fd["generics"], res[2]))
        if (k2 is None or (k2 == key and trait is not None)) and trait is not None and targs:
            item = nice.rsplit("::", 1)[1]
            hit = self.F.find_impl(trait, targs[0], item)
            if hit:
                k2, env0 = hit
                fd = self.F.fns.get(k2)
                env = dict(env0)
                # the method's own generics come after the impl's
                if fd:
                    own = [g for g in fd["generics"] if g not in env0]
                    rest = list(targs[-len(own):]) if own else []
                    env.update(zip(own, rest))
        if k2 is None:
            k2 = key
            fd = self.F.fns.get(k2)
            if fd:
                env = dict(zip(fd["generics"], targs))
        fd = self.F.fns.get(k2)
        if fd is not None and "body" in fd and not self.is_opaque(nice, k2):
            m = self.models.find(fd["nice"], k2, None) if k2 != key else None
            if m is not None:
                r = m(self, st, args, Ctx(f, dty, site, fd["nice"], targs))
                if r is not None:
                    return r
            return self.exec_fn(st, k2, env or {}, args)
        return self.unknown_call(st, nice, args, dty, site, diverges, muts)

    def is_opaque(self, nice, key):
        return any(p(nice, key) if callable(p) else nice == p or key == p for p in self.opaque)

    def unknown_call(self, st, nice, args, dty, site, diverges=False, muts=None):
        n = st.fresh()
        tok = ("t", ("call", n, nice), dty)
        self.unknown[nice] = self.unknown.get(nice, 0) + 1
        if diverges:
            return [(st, tok)]
        st.event("call", nice, tuple(args), tok, site)
        # what a mutable reference leads to may change; a handle of the
        # operating system keeps its identity
        for i, (a, t) in enumerate(zip(args, muts or ())):
            if a is None or a[0] not in ("r", "t") or t is None or t[0] != "ref" or not t[1]:
                continue
            c1, p1 = self.deref_loc(st, a)
            old = self.load(st, c1, p1)
            if old is not None and old[0] == "t" and old[2] and old[2][0] == "adt" and old[2][1].startswith(HANDLES):
                continue
            st.event("before", tok, i, old)
            self.store(st, c1, p1, ("t", ("mut", n, i), t[2]))
        return [(st, tok)]

    def ctor(self, key, targs, args, dty):
        base = key.rsplit("::{constructor", 1)[0]
        base = base.split("::{ctor}")[0]
        if dty is not None and dty[0] == "adt":
            a = self.F.adts.get(dty[1])
            name = base.rsplit("::", 1)[1]
            if a:
                for i, v in enumerate(a["variants"]):
                    if v[0] == name:
                        return ("a", ("adt", dty[1], dty[2]), i, tuple(args))
            return ("a", ("adt", dty[1], dty[2]), 0, tuple(args))
        for k in (base, base.rsplit("::", 1)[0]):
            a = self.F.adts.get(k)
            if a:
                name = base.rsplit("::", 1)[1]
                for i, v in enumerate(a["variants"]):
                    if v[0] == name:
                        return ("a", ("adt", k, ()), i, tuple(args))
                return ("a", ("adt", k, ()), 0, tuple(args))
        return ("t", ("ctor", key, tuple(args)), dty)


HANDLES = ("std::net::", "std::fs::", "std::process::", "std::thread::")


class Ctx:
    __slots__ = ("f", "dty", "site", "nice", "targs")

    def __init__(self, f, dty, site, nice, targs):
        self.f, self.dty, self.site, self.nice, self.targs = f, dty, site, nice, targs
