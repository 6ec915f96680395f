"""Evaluation of path conditions over a finite set of order types.

The conditions of the timed operations compare a handful of integers (bounds, elapsed time) and flags; a condition
built from comparisons and sums of them takes one value on a whole order type, so one representative of each order
type (and a few far-away ones) decides which paths of the function belong to it.  Nothing is executed: the
representatives are put into the conditions collected from the MIR."""
import itertools
from fractions import Fraction as Fr

from core import *

U64 = 2**64


class Unknown(Exception):
    pass


class Env:
    """one representative"""

    def __init__(self, fields, elapsed, has, tok, names):
        self.fields = fields    # {session field name: value}
        self.elapsed = elapsed  # {clock character: elapsed}
        self.has = has          # {clock character: bool}
        self.tok = tok          # session token
        self.names = names      # session field names
        self.calls = {}

    def key(self, k):
        v = self.val(k)
        return v

    def val(self, t):
        if t is None:
            raise Unknown("nothing")
        k = t[0]
        if k == "i":
            return t[1]
        if k == "a":
            if t[1][0] == "tuple":
                return tuple(self.val(x) for x in t[3])
            raise Unknown(sh(t))
        if k == "t":
            i = t[1]
            if i[0] == "fld":
                if i[1] == self.tok and i[3] < len(self.names) and self.names[i[3]] in self.fields:
                    return self.fields[self.names[i[3]]]
                # payload of the result of a conversion
                if i[1][0] == "t" and i[1][1][0] == "call" and i[2] in (0, 1):
                    return self.callval(i[1])
            if i[0] == "call":
                return self.callval(t)
            if i[0] == "mapval":
                return ("clock", self.val(i[2]))
            raise Unknown(sh(t))
        if k == "x":
            return self.term(t)
        raise Unknown(sh(t))

    def secs(self, t):
        """a duration in seconds"""
        if t[0] == "x" and t[1] == "dur":
            n = self.val(t[3])
            u = {"secs": 1, "millis": 1000, "micros": 10**6, "nanos": 10**9, "secs_f": 1}.get(t[2])
            if t[2] == "mins":
                return Fr(n) * 60
            if u is None:
                raise Unknown(t[2])
            return Fr(n) / u
        return Fr(self.val(t))

    def term(self, t):
        op, a = t[1], t[2:]
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            x, y = self.val(a[0]), self.val(a[1])
            try:
                return int({"Lt": lambda: x < y, "Le": lambda: x <= y, "Gt": lambda: x > y, "Ge": lambda: x >= y, "Eq": lambda: x == y, "Ne": lambda: x != y}[op]())
            except TypeError:
                raise Unknown(sh(t))
        if op == "Not":
            return 1 - self.val(a[0])
        if op in ("BitAnd", "BitOr", "BitXor"):
            x, y = self.val(a[0]), self.val(a[1])
            return {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op]
        if op in ("Add", "Sub", "Mul"):
            x, y = self.val(a[0]), self.val(a[1])
            return x + y if op == "Add" else x - y if op == "Sub" else x * y
        if op in ("Div", "Rem"):
            x, y = self.val(a[0]), self.val(a[1])
            if isinstance(x, int) and isinstance(y, int) and y:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q if op == "Div" else x - q * y
            if op == "Div" and y:
                return x / y
        if op in ("min", "max"):
            return (min if op == "min" else max)(self.val(a[0]), self.val(a[1]))
        if op == "Neg":
            return -self.val(a[0])
        if op == "dur":
            return self.secs(t)
        if op == "elapsed":
            c = self.val(a[0])
            if isinstance(c, tuple) and c[0] == "clock" and c[1] in self.elapsed:
                return self.elapsed[c[1]]
            raise Unknown(sh(t))
        if op in ("as_secs", "as_millis", "as_micros", "as_nanos"):
            u = {"as_secs": 1, "as_millis": 1000, "as_micros": 10**6, "as_nanos": 10**9}[op]
            return int(self.secs(a[0]) * u // 1)
        if op in ("as_secs_f64", "as_secs_f32"):
            return self.secs(a[0])
        if op == "has":
            c = self.val(a[1])
            if c in self.has:
                return int(self.has[c])
            raise Unknown(sh(t))
        if op == "durfits":
            return int(self.val(a[0]) >= 0)
        if op == "as":
            v = self.val(a[0])
            ty = a[1] if len(a) > 1 else None
            n = ty if isinstance(ty, str) else (ty[1] if ty else None)
            if n in ("u64", "usize"):
                return int(v) % U64
            if n == "u32":
                return int(v) % 2**32
            if n in ("u128",):
                return int(v) % 2**128
            if n in ("i64", "isize"):
                return (int(v) + 2**63) % U64 - 2**63
            return v
        if op == "cast":
            return self.val(a[-1])
        if op == "discr":
            raise Unknown(sh(t))
        raise Unknown(sh(t))

    def callval(self, tok):
        """value of a modelled pure call"""
        c = self.calls.get(tok)
        if c is None:
            raise Unknown(sh(tok))
        fn, args = c
        n = fn.rsplit("::", 1)[1]
        if n in ("try_from", "try_into", "from", "into", "clone", "unsigned_abs", "abs"):
            v = self.val(args[0])
            return abs(v) if n.endswith("abs") else v
        if n in ("min", "max"):
            return {"min": min, "max": max}[n](self.val(args[0]), self.val(args[1]))
        raise Unknown(sh(tok))

    def tag(self, tok):
        """variant of a modelled pure call, or None when it is free"""
        c = self.calls.get(tok)
        if c is None:
            return None
        fn, args = c
        n = fn.rsplit("::", 1)[1]
        if n in ("try_from", "try_into"):
            t = tok[2]
            to = t[2][0][1] if t and t[0] == "adt" and t[2] and t[2][0][0] == "prim" else "u64"
            v = self.val(args[0])
            lim = {"u64": (0, U64), "usize": (0, U64), "u32": (0, 2**32), "i64": (-(2**63), 2**63), "i32": (-(2**31), 2**31), "u128": (0, 2**128), "i128": (-(2**127), 2**127)}.get(to)
            if lim is None:
                raise Unknown(sh(tok))
            return 0 if lim[0] <= v < lim[1] else 1
        if n in ("cmp", "partial_cmp") and "Ord" in fn:
            x, y = self.val(args[0]), self.val(args[1])
            return 0 if x < y else 1 if x == y else 2
        return None

    def bind(self, p):
        self.calls = {e[3]: (e[1], e[2]) for e in p.ev("call")}

    def holds(self, p):
        """can the path be taken for this representative? (conditions that cannot be evaluated are not held against it)"""
        self.bind(p)
        for t, v in p.conds.items():
            try:
                if t[0] == "ne":
                    if self.val(t[1]) in v:
                        return False
                    continue
                if self.val(t) != v:
                    return False
            except Unknown:
                continue
        for tok, v in p.tags.items():
            try:
                w = self.tag(tok)
                if w is not None and w != v:
                    return False
            except Unknown:
                continue
        return True


SEC = {"START": [-2, -1, 0, 1, 2, 3, 100], "END": [-2, -1, 0, 1, 2, 3, 100]}
ELAPSED = [Fr(0), Fr(1, 2), Fr(1), Fr(3, 2), Fr(2), Fr(5, 2), Fr(3), Fr(7, 2), Fr(5), Fr(199, 2), Fr(100), Fr(201, 2), Fr(102)]
CLOCK, OTHER, THIRD = ord("k"), ord("r"), ord("z")


def grid():
    """(start, end, include start, include end, elapsed, clock exists, reset: 0 none / 1 the clock itself / 2 another, reset clock exists)"""
    for s, e, i, j in itertools.product(SEC["START"], SEC["END"], (0, 1), (0, 1)):
        for d in ELAPSED:
            yield s, e, i, j, d, 1, 2, 1
        for reset in (0, 1):
            for d in (Fr(0), Fr(1), Fr(3, 2), Fr(100)):
                yield s, e, i, j, d, 1, reset, 1
        for d in (Fr(0), Fr(1), Fr(100)):
            yield s, e, i, j, d, 1, 2, 0
            yield s, e, i, j, d, 0, 2, 1
            yield s, e, i, j, d, 0, 0, 1


def env_of(g, tok, names):
    s, e, i, j, d, hc, r, hr = g
    reset = {0: ord(" "), 1: CLOCK, 2: OTHER}[r]
    f = {"clock": CLOCK, "start": s, "include_start": i, "end": e, "include_end": j, "reset": reset}
    return Env(f, {CLOCK: d, OTHER: d + 7, THIRD: d + 13}, {CLOCK: hc, OTHER: hr, THIRD: 1, ord(" "): 0}, tok, names)


def verdict(g):
    """'in' (the operation must be possible), 'out' (it must refuse), 'any'"""
    s, e, i, j, d, hc, r, hr = g
    if s < 0 and e < 0:
        return "any" if (i or j or not hc) else "in"
    if not hc:
        return "out"
    n = int(d // 1)
    lo = s < 0 or (s <= n if i else s < n)
    hi = e < 0 or (n <= e if j else n < e)
    if not (lo and hi):
        return "out"
    if e >= 0 and d > e:
        return "any"  # inside by whole seconds, already past the bound by the clock
    return "in"


def group(g):
    """class of a representative, for keys and messages"""
    s, e, i, j = g[:4]
    if s < 0 and e < 0:
        return "unbounded" if s <= e else "unbounded-start-above-end"
    if s < 0:
        return "upper-only" + ("-incl" if j else "-excl")
    if e < 0:
        return "lower-only" + ("-incl" if i else "-excl")
    return "both" + ("-incl" if i else "-excl") + ("-incl" if j else "-excl")
