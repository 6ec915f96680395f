"""Summaries of the standard library and of crossbeam used by the interpreter.

Every summary only says where values come from and which effect happens; it
never decides anything about the property."""
import re

from interp import UNIT, TRUE, FALSE, NONE, adt, ok, err, some, tup, Path, Undecided

SENDERR = "crossbeam_channel::err::SendError"


class Models:
    def __init__(self):
        self.exact = {}
        self.pats = []
        self.cache = {}

    def add(self, *names):
        def deco(fn):
            for n in names:
                if n.startswith("re:"):
                    self.pats.append((re.compile(n[3:] + r"\Z"), fn))
                else:
                    self.exact[n] = fn
            return fn

        return deco

    def find(self, nice, key, trait):
        if nice in self.cache:
            return self.cache[nice]
        r = self.exact.get(nice)
        if r is None:
            for p, fn in self.pats:
                if p.match(nice):
                    r = fn
                    break
        self.cache[nice] = r
        return r

    def copy(self):
        m = Models()
        m.exact = dict(self.exact)
        m.pats = list(self.pats)
        return m


STD = Models()
A = STD.add


def tok(st, kind, dty, *more):
    return ("t", (kind, st.fresh()) + more, dty)


# ------------------------------------------------------------------ memory
@A("std::mem::drop", "std::ops::Drop::drop")
def m_drop(I, st, a, c):
    st.event("drop", a[0], c.site)
    return [(st, UNIT)]


@A("std::mem::forget", "re:std::mem::ManuallyDrop::<T>::new", "re:std::boxed::Box::<.*>::(leak|into_raw)")
def m_leak(I, st, a, c):
    st.event("leak", a[0], c.nice, c.site)
    return [(st, tok(st, "leak", c.dty))]


@A("std::mem::swap")
def m_swap(I, st, a, c):
    (c1, p1), (c2, p2) = I.deref_loc(st, a[0]), I.deref_loc(st, a[1])
    x, y = I.load(st, c1, p1), I.load(st, c2, p2)
    I.store(st, c1, p1, y)
    I.store(st, c2, p2, x)
    return [(st, UNIT)]


@A("std::mem::replace")
def m_replace(I, st, a, c):
    c1, p1 = I.deref_loc(st, a[0])
    x = I.load(st, c1, p1)
    I.store(st, c1, p1, a[1])
    return [(st, x)]


@A("std::mem::take")
def m_take(I, st, a, c):
    c1, p1 = I.deref_loc(st, a[0])
    x = I.load(st, c1, p1)
    d = {"alloc::string::String": ("s", ""), "alloc::vec::Vec": ("l", ())}
    t = c.dty[1] if c.dty and c.dty[0] == "adt" else None
    v = d.get(t)
    if t == "core::option::Option":
        v = NONE
    I.store(st, c1, p1, v or tok(st, "default", c.dty))
    return [(st, x)]


@A("re:std::option::Option::<T>::(take)")
def m_opt_take(I, st, a, c):
    c1, p1 = I.deref_loc(st, a[0])
    x = I.load(st, c1, p1)
    I.store(st, c1, p1, NONE)
    return [(st, x)]


@A(
    "re:std::boxed::Box::<.*>::new", "re:std::boxed::Box::<.*>::pin", "std::boxed::box_new",
    "re:std::sync::(Arc|Mutex|RwLock)::<.*>::new", "re:std::cell::(RefCell|Cell)::<.*>::new", "re:std::rc::Rc::<.*>::new",
)
def m_box(I, st, a, c):
    if "Box" not in c.nice and "box" not in c.nice:
        st.event("wrap", c.nice, a[0], c.site)
    cell = ("H", st.fresh())
    st.mem[cell] = a[0]
    return [(st, ("r", cell, ()))]


@A(
    "std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::borrow::Borrow::borrow",
    "std::convert::AsRef::as_ref",
)
def m_clone(I, st, a, c):
    v = I.strip(st, a[0])
    if c.nice.endswith(("::clone", "::to_owned")) and is_map(v):
        return [(st, copy_map(I, st, v))]
    return [(st, v)]


def is_map(v):
    """a map made where it can be seen, so that its entries are known"""
    return v is not None and v[0] == "t" and isinstance(v[1], tuple) and v[1][0] == "map"


def copy_map(I, st, w):
    m = tok(st, "map", w[2])
    for cell in [x for x in st.mem if isinstance(x, tuple) and len(x) == 3 and x[0] == "mapval" and x[1] == w]:
        st.mem[("mapval", m, cell[2])] = st.mem[cell]
        at = ("M", w, cell[2])
        if at in st.mem:
            x = I.strip(st, st.mem[at])
            st.mem[("M", m, cell[2])] = copy_map(I, st, x) if is_map(x) else st.mem[at]
    return m


@A("re:std::option::Option::<&(mut )?T>::(cloned|copied)")
def m_optcloned(I, st, a, c):
    v = I.strip(st, a[0])
    if v is not None and v[0] == "a" and len(v[3]) == 1 and v[3][0] is not None and v[3][0][0] == "r":
        return [(st, some(I.strip(st, v[3][0])))]
    return [(st, v)]


@A("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::borrow::BorrowMut::borrow_mut", "re:std::vec::Vec::<.*>::(as_slice|as_mut_slice)", "std::convert::AsMut::as_mut", "re:std::option::Option::<T>::(as_deref|as_deref_mut)", "std::boxed::Box::<T, A>::as_ref")
def m_deref(I, st, a, c):
    v = a[0]
    if v is not None and v[0] == "r":
        inner = I.load(st, v[1], v[2])
        if inner is not None and inner[0] == "r":
            return [(st, inner)]
    return [(st, v)]


@A("std::convert::From::from", "std::convert::Into::into", "std::string::ToString::to_string", "std::fmt::Display::fmt_never",
   "std::convert::identity", "std::hint::black_box", "std::hint::must_use", "std::iter::IntoIterator::into_iter_never")
def m_from(I, st, a, c):
    v = a[0]
    # a local From impl is followed, not summarised
    res = c.f[5]
    if res is not None and res[0] == "item" and res[1] in I.F.fns and I.F.fns[res[1]]["crate"] in I.F.crates and not res[1].startswith(("core::", "alloc::", "std::")):
        return None
    if "to_string" in c.nice:
        return [(st, disp(I, st, v))]
    if c.dty and c.dty[0] == "adt" and c.dty[1] == "alloc::string::String":
        return [(st, disp(I, st, v))]
    return [(st, v)]


# ------------------------------------------------------------------ strings
def disp(I, st, v):
    """display form of a value: a known string, or a normalised term"""
    w = I.strip(st, v)
    if w is None:
        return ("x", "disp", None)
    if w[0] == "s":
        return w
    if w[0] == "i":
        return ("x", "disp", w)
    if w[0] == "x" and w[1] in ("fmt", "disp"):
        return w
    return ("x", "disp", w)


def fmt_join(parts):
    out = []
    for p in parts:
        if p[0] == "x" and p[1] == "fmt":
            seq = list(p[2])
        else:
            seq = [p]
        for q in seq:
            if q[0] == "s":
                if not q[1]:
                    continue
                if out and out[-1][0] == "s":
                    out[-1] = ("s", out[-1][1] + q[1])
                    continue
            out.append(q)
    if not out:
        return ("s", "")
    if len(out) == 1 and out[0][0] == "s":
        return out[0]
    return ("x", "fmt", tuple(out))


@A("re:core::fmt::rt::Argument::<.*>::new_.*", "re:core::fmt::rt::Argument::new_.*")
def m_fmtarg(I, st, a, c):
    kind = c.nice.rsplit("new_", 1)[1]
    v = I.strip(st, a[0])
    ty = c.targs[-1] if c.targs else None
    while ty and ty[0] == "ref":
        ty = ty[2]
    if v is not None and v[0] == "i" and ty == ("prim", "char") and kind == "display":
        return [(st, ("x", "fmtarg", kind, ("s", chr(v[1]))))]
    if v is not None and v[0] == "i" and ty == ("prim", "bool"):
        return [(st, ("x", "fmtarg", kind, ("s", "true" if v[1] else "false")))]
    return [(st, ("x", "fmtarg", kind, disp(I, st, a[0])))]


@A("re:std::fmt::Arguments::<.*>::new", "re:core::fmt::rt::<impl std::fmt::Arguments<.*>>::new(_.*)?", "re:std::fmt::Arguments::<.*>::new_.*")
def m_fmtnew(I, st, a, c):
    t = I.strip(st, a[0])
    args = I.strip(st, a[1]) if len(a) > 1 else ("a", ("array",), 0, ())
    if t is None or t[0] != "b" or args is None or args[0] != "a":
        return [(st, ("x", "fmt", (("x", "opaquefmt", t, args),)))]
    return [(st, decode_template(t[1], args[3]))]


@A("re:core::fmt::rt::<impl std::fmt::Arguments<.*>>::from_str(_nonconst)?", "re:std::fmt::Arguments::<.*>::from_str(_nonconst)?", "re:.*fmt::Arguments.*::from_str.*", "re:.*fmt::Arguments.*::new_const.*")
def m_fmtstr(I, st, a, c):
    return [(st, disp(I, st, a[0]))]


def decode_template(b, args):
    parts = []
    i = 0
    nxt = 0
    n = len(b)
    while i < n:
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            parts.append(("s", bytes(b[i : i + x]).decode("utf8", "replace")))
            i += x
        elif x == 0x80:
            ln = b[i] | (b[i + 1] << 8)
            i += 2
            parts.append(("s", bytes(b[i : i + ln]).decode("utf8", "replace")))
            i += ln
        else:
            opts = x & 0x3F
            flags = None
            if opts & 1:
                flags = tuple(b[i : i + 4])
                i += 4
            if opts & 2:
                i += 2
            if opts & 4:
                i += 2
            if opts & 8:
                nxt = b[i] | (b[i + 1] << 8)
                i += 2
            arg = args[nxt] if nxt < len(args) else None
            nxt += 1
            if arg is not None and arg[0] == "x" and arg[1] == "fmtarg":
                d = arg[3]
                if arg[2] != "display":
                    d = ("x", "fmt_" + arg[2], d)
                parts.append(d)
            else:
                parts.append(("x", "disp", arg))
    return fmt_join(parts)


@A("std::fmt::format", "alloc::fmt::format", "std::fmt::Arguments::<'a>::to_string", "std::fmt::Arguments::<'_>::as_str_never")
def m_format(I, st, a, c):
    return [(st, disp(I, st, a[0]))]


@A("std::string::String::new", "re:std::string::String::with_capacity")
def m_strnew(I, st, a, c):
    return [(st, ("s", ""))]


@A("std::string::String::push_str", "std::string::String::push")
def m_push_str(I, st, a, c):
    c1, p1 = I.deref_loc(st, a[0])
    x = I.load(st, c1, p1)
    y = a[1]
    if c.nice.endswith("push") and y[0] == "i":
        y = ("s", chr(y[1]))
    I.store(st, c1, p1, fmt_join([disp(I, st, x), disp(I, st, y)]))
    return [(st, UNIT)]


@A("std::string::String::clear")
def m_strclear(I, st, a, c):
    c1, p1 = I.deref_loc(st, a[0])
    I.store(st, c1, p1, ("s", ""))
    return [(st, UNIT)]


@A("std::fmt::Write::write_str", "std::fmt::Write::write_char", "std::fmt::Write::write_fmt")
def m_write(I, st, a, c):
    ty = c.targs[0] if c.targs else None
    if not (ty and ty[0] == "adt" and ty[1] == "alloc::string::String"):
        return None
    c1, p1 = I.deref_loc(st, a[0])
    x = I.load(st, c1, p1)
    y = a[1]
    if c.nice.endswith("char") and y[0] == "i":
        y = ("s", chr(y[1]))
    I.store(st, c1, p1, fmt_join([disp(I, st, x), disp(I, st, y)]))
    return [(st, ok(UNIT))]


@A("std::ops::Add::add")
def m_add(I, st, a, c):
    if c.dty and c.dty[0] == "adt" and c.dty[1] == "alloc::string::String":
        return [(st, fmt_join([disp(I, st, a[0]), disp(I, st, a[1])]))]
    x, y = I.strip(st, a[0]), I.strip(st, a[1])
    return [(st, I.binop(st, "Add", x, y))]


@A("std::ops::AddAssign::add_assign", "std::ops::SubAssign::sub_assign")
def m_addassign(I, st, a, c):
    c1, p1 = I.deref_loc(st, a[0])
    x = I.load(st, c1, p1)
    y = I.strip(st, a[1])
    ty = c.targs[0] if c.targs else None
    if ty and ty[0] == "adt" and ty[1] == "alloc::string::String":
        v = fmt_join([disp(I, st, x), disp(I, st, y)])
    else:
        v = I.binop(st, "Add" if "add" in c.nice else "Sub", x, y)
    I.store(st, c1, p1, v)
    return [(st, UNIT)]


@A("std::ops::Sub::sub")
def m_sub(I, st, a, c):
    x, y = I.strip(st, a[0]), I.strip(st, a[1])
    return [(st, I.binop(st, "Sub", x, y))]


@A("re:(std::string::String|std::str|core::str|alloc::str|str)(::<impl str>)?::(as_str|as_mut_str|to_string|to_owned|into_string|into_boxed_str|as_ref)", "re:std::string::String::(as_str|into_boxed_str)")
def m_as_str(I, st, a, c):
    return [(st, a[0])]


@A("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne", "re:std::cmp::PartialOrd::(lt|le|gt|ge)")
def m_eq(I, st, a, c):
    res = c.f[5]
    if res is not None and res[0] == "item" and res[1] in I.F.fns and not res[1].startswith(("core::", "alloc::", "std::")):
        return None
    x, y = I.strip(st, a[0]), I.strip(st, a[1])
    op = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c.nice.rsplit("::", 1)[1]]
    x, y = undisp(x), undisp(y)
    if x is not None and y is not None and x[0] == "a" and y[0] == "a" and op in ("Eq", "Ne"):
        r = deep_eq(I, st, x, y)
        if r is not None:
            return [(st, ("i", int(r == (op == "Eq"))))]
    return [(st, I.binop(st, op, x, y))]


@A("re:std::iter::Iterator::(eq|ne)")
def m_itereq(I, st, a, c):
    x, y = (items_of(I, st, take_iter(I, st, v)[0]) for v in a[:2])
    if x is None or y is None:
        return None
    lst = lambda l: ("l", tuple(I.strip(st, z) for z in l))
    return [(st, I.binop(st, "Eq" if c.nice.endswith("eq") else "Ne", lst(x), lst(y)))]


def undisp(x):
    """the text behind its display form (a string displays as itself)"""
    if x is not None and x[0] == "x" and x[1] == "disp" and x[2] is not None and x[2][0] == "t":
        return x[2]
    return x


def deep_eq(I, st, x, y):
    x, y = I.strip(st, x), I.strip(st, y)
    if x is None or y is None:
        return None
    if x == y:
        return True
    if x[0] == "a" and y[0] == "a":
        if x[1][0] != y[1][0] or len(x[3]) != len(y[3]) or x[2] != y[2]:
            return False
        res = True
        for p, q in zip(x[3], y[3]):
            r = deep_eq(I, st, p, q)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    if x[0] in ("i", "s") and y[0] == x[0]:
        return x[1] == y[1]
    if {x[0], y[0]} <= {"i", "s", "a"}:
        return False
    return None


# ------------------------------------------------------------------ lists
def items_of(I, st, v):
    """(items, place) of a known list value or of a reference to one"""
    if v is None:
        return None
    if v[0] == "l":
        return list(v[1])
    if v[0] == "it":
        return list(v[1])
    if v[0] == "a" and v[1][0] == "array":
        return list(v[3])
    if v[0] == "r":
        w = I.load(st, v[1], v[2])
        if w is not None and w[0] == "r":
            return items_of(I, st, w)
        if w is None:
            return None
        n = None
        if w[0] == "l":
            n = len(w[1])
        elif w[0] == "a" and w[1][0] == "array":
            n = len(w[3])
        if n is not None:
            return [("r", v[1], v[2] + (("i", ("i", k)),)) for k in range(n)]
    if v[0] == "a" and v[1][0] == "adt" and v[1][1].endswith("option::Option"):
        return list(v[3])
    if v[0] == "a" and v[1][0] == "adt" and v[1][1].endswith("ops::range::Range") and len(v[3]) == 2:
        x, y = v[3]
        if x and y and x[0] == "i" and y[0] == "i" and y[1] - x[1] <= 64:
            return [("i", k) for k in range(x[1], y[1])]
    return None


@A("std::iter::IntoIterator::into_iter", "re:.*::<impl \\[T\\]>::(iter|iter_mut|into_iter)", "re:std::vec::Vec::<.*>::(iter|iter_mut|into_iter|drain)", "re:core::slice::<impl \\[T\\]>::.*iter.*")
def m_into_iter(I, st, a, c):
    v = a[0]
    it = items_of(I, st, v)
    if it is not None:
        return [(st, ("it", tuple(it)))]
    # iterators and opaque collections stay as they are
    w = I.strip(st, v)
    if v is not None and v[0] == "t" and v[2] and v[2][0] == "adt" and v[2][1].endswith("option::Option"):
        return [(s, ("it", (p,) if has else ())) for s, has, p in split_option(I, st, v)]
    if v is not None and v[0] == "r" and w is not None and w[0] == "t" and w[1][0] == "map":
        es = entries_of(st, w)
        if es is not None:
            return [(st, ("it", tuple(entry_items(st, es, "iter"))))]
    if v is not None and v[0] == "t" and v[1][0] == "map" and v[2] and v[2][0] == "adt" and v[2][1].endswith(("HashMap", "BTreeMap")):
        es = entries_of(st, v)
        if es is not None:
            return [(st, ("it", tuple(("a", ("tuple",), 0, (k, st.mem[cell])) for k, cell in es)))]
    if v is not None and v[0] == "a" and v[1][0] == "adt" and "ops::range::Range" in v[1][1]:
        return [(st, v)]
    if v is not None and v[0] == "t" and v[2] and v[2][0] == "adt" and ("iter" in v[2][1] or "Iter" in v[2][1]):
        return [(st, v)]
    return [(st, ("t", ("iter", w, "into_iter" if v is not None and v[0] != "r" else "iter"), c.dty))]


def take_iter(I, st, v):
    """iterator items through a reference or by value"""
    w = v
    ref = None
    while w is not None and w[0] == "r":
        ref = w
        w = I.load(st, w[1], w[2])
    return w, ref


@A("std::iter::Iterator::next")
def m_next(I, st, a, c):
    w, ref = take_iter(I, st, a[0])
    if w is not None and w[0] == "it":
        if len(w) > 2:  # a rule wants to know how often this source was read
            st.event("read", w[2], bool(w[1]), c.site)
        if not w[1]:
            return [(st, NONE)]
        I.store(st, ref[1], ref[2], ("it", w[1][1:]) + w[2:])
        return [(st, some(w[1][0]))]
    if w is not None and w[0] == "a" and w[1][0] == "adt" and w[1][1].endswith("ops::range::Range"):
        x, y = w[3]
        lt = I.binop(st, "Lt", x, y)
        kn = I.known(st, lt)
        if kn is not None:
            if not kn:
                return [(st, NONE)]
            I.store(st, ref[1], ref[2], ("a", w[1], 0, (I.binop(st, "Add", x, ("i", 1)), y)))
            return [(st, some(x))]
        # a range whose end is not known: one element at a time, its value is not tracked further
        t = ("t", ("next", st.fresh(), w), ("adt", "core::option::Option", (None,)))
        s2 = st.fork()
        st.tags[t] = 1
        st.event("next", w, t, c.site)
        I.store(st, ref[1], ref[2], ("a", w[1], 0, (("t", ("rnext", st.fresh()), None), y)))
        s2.tags[t] = 0
        s2.event("next", w, t, c.site)
        return [(st, some(I.fld(t, 1, 0))), (s2, NONE)]
    if w is not None and w[0] == "a" and w[1][0] == "adt" and w[1][1].endswith("ops::range::RangeInclusive") and len(w[3]) >= 2:
        x, y = w[3][0], w[3][1]
        if x[0] == "i" and y[0] == "i":
            if x[1] > y[1]:
                return [(st, NONE)]
            I.store(st, ref[1], ref[2], ("a", w[1], 0, (("i", x[1] + 1), y) + w[3][2:]))
            return [(st, some(x))]
    res = c.f[5]
    n = st.fresh()
    t = ("t", ("next", n, w), c.dty)
    st.event("next", w, t, c.site)
    return [(st, t)]


@A("std::iter::Iterator::enumerate")
def m_enumerate(I, st, a, c):
    w, _ = take_iter(I, st, a[0])
    if w is not None and w[0] == "it":
        return [(st, ("it", tuple(tup(("i", k), x) for k, x in enumerate(w[1]))))]
    return [(st, ("t", ("iter", w, "enumerate"), c.dty))]


@A("std::iter::Iterator::rev")
def m_rev(I, st, a, c):
    w, _ = take_iter(I, st, a[0])
    if w is not None and w[0] == "it":
        return [(st, ("it", tuple(reversed(w[1]))))]
    it = items_of(I, st, w)
    if it is not None:
        return [(st, ("it", tuple(reversed(it))))]
    return [(st, ("t", ("iter", w, "rev"), c.dty))]


@A("std::iter::Iterator::zip")
def m_zip(I, st, a, c):
    w, _ = take_iter(I, st, a[0])
    y = items_of(I, st, a[1])
    if w is not None and w[0] == "it" and y is not None:
        return [(st, ("it", tuple(tup(p, q) for p, q in zip(w[1], y))))]
    return [(st, ("t", ("iter", (w, a[1]), "zip"), c.dty))]


@A("std::iter::Iterator::chain")
def m_chain(I, st, a, c):
    w, _ = take_iter(I, st, a[0])
    y = items_of(I, st, a[1])
    if w is not None and w[0] == "it" and y is not None:
        return [(st, ("it", tuple(w[1]) + tuple(y)))]
    return [(st, ("t", ("iter", (w, a[1]), "chain"), c.dty))]


@A("std::iter::Iterator::cloned", "std::iter::Iterator::copied")
def m_icloned(I, st, a, c):
    w, _ = take_iter(I, st, a[0])
    if w is not None and w[0] == "it":
        return [(st, ("it", tuple(I.strip(st, x) for x in w[1])))]
    return [(st, w)]


@A("std::iter::Iterator::skip", "std::iter::Iterator::take")
def m_skip(I, st, a, c):
    w, _ = take_iter(I, st, a[0])
    if w is not None and w[0] == "it" and a[1][0] == "i":
        k = a[1][1]
        return [(st, ("it", w[1][k:] if c.nice.endswith("skip") else w[1][:k]))]
    return [(st, ("t", ("iter", (w, a[1]), c.nice.rsplit("::", 1)[1]), c.dty))]


def map_over(I, st, items, f, site, i=0, acc=()):
    """all outcomes of applying f to the items in order"""
    work = [(st, ())]
    for x in items:
        nxt = []
        for s, ac in work:
            for s2, v in I.apply(s, f, [x], None, site):
                nxt.append((s2, ac + (v,)))
        work = nxt
    return work


@A("std::iter::Iterator::map", "std::iter::Iterator::inspect_never")
def m_map(I, st, a, c):
    w, _ = take_iter(I, st, a[0])
    if w is None or w[0] != "it":
        w2 = items_of(I, st, w)
        if w2 is None:
            return [(st, ("t", ("itermap", w, a[1]), c.dty))]
        w = ("it", tuple(w2))
    return [(s, ("it", acc)) for s, acc in map_over(I, st, w[1], a[1], c.site)]


@A("std::iter::Iterator::for_each")
def m_for_each(I, st, a, c):
    w, _ = take_iter(I, st, a[0])
    if w is None or w[0] != "it":
        w2 = items_of(I, st, w)
        if w2 is None:
            # no element, or one symbolic element and then the end
            def ask(s, tag):
                t = ("t", ("next", s.fresh(), w), ("adt", "core::option::Option", (None,)))
                s.tags[t] = tag
                s.event("next", w, t, c.site)
                return t
            s0 = st.fork()
            ask(s0, 0)
            outs = [(s0, UNIT)]
            t = ask(st, 1)
            for s2, _v in I.apply(st, a[1], [I.fld(t, 1, 0)], None, c.site):
                ask(s2, 0)
                outs.append((s2, UNIT))
            return outs
        w = ("it", tuple(w2))
    return [(s, UNIT) for s, acc in map_over(I, st, w[1], a[1], c.site)]


@A("std::iter::Iterator::try_for_each")
def m_try_for_each(I, st, a, c):
    w, _ = take_iter(I, st, a[0])
    if w is None or w[0] != "it":
        return None
    work, outs = [st], []
    for x in w[1]:
        nxt = []
        for s in work:
            for s2, v in I.apply(s, a[1], [x], c.dty, c.site):
                for s3, isok, e in split_result(I, s2, v, c.dty):
                    if isok:
                        nxt.append(s3)
                    else:
                        outs.append((s3, err(e)))
        work = nxt
    return outs + [(s, ok(UNIT)) for s in work]


def split_result(I, st, v, ty=None):
    """[(state, is_ok, payload)]"""
    if v is not None and v[0] == "a":
        return [(st, v[2] == 0, v[3][0] if v[3] else None)]
    if v in st.tags:
        t = st.tags[v]
        return [(st, t == 0, I.fld(v, t, 0))]
    out = []
    for t in (0, 1):
        s2 = st.fork()
        s2.tags[v] = t
        out.append((s2, t == 0, I.fld(v, t, 0)))
    return out


def split_option(I, st, v):
    if v is not None and v[0] == "a":
        return [(st, v[2] == 1, v[3][0] if v[3] else None)]
    if v in st.tags:
        t = st.tags[v]
        return [(st, t == 1, I.fld(v, t, 0))]
    out = []
    for t in (0, 1):
        s2 = st.fork()
        s2.tags[v] = t
        out.append((s2, t == 1, I.fld(v, t, 0) if t else None))
    return out


@A("std::iter::Iterator::fold")
def m_fold(I, st, a, c):
    w, _ = take_iter(I, st, a[0])
    if w is None or w[0] != "it":
        return None
    work = [(st, a[1])]
    for x in w[1]:
        nxt = []
        for s, ac in work:
            nxt += I.apply(s, a[2], [ac, x], c.dty, c.site)
        work = nxt
    return work


@A("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def m_collect(I, st, a, c):
    w, _ = take_iter(I, st, a[0])
    it = items_of(I, st, w)
    if it is None:
        return [(st, ("t", ("collect", st.fresh(), w), c.dty))]
    t = c.dty[1] if c.dty and c.dty[0] == "adt" else None
    if t == "alloc::string::String":
        return [(st, fmt_join([disp(I, st, x) for x in it]))]
    if t == "core::result::Result":
        work, outs = [(st, ())], []
        for x in it:
            nxt = []
            for s, ac in work:
                for s2, isok, v in split_result(I, s, x):
                    if isok:
                        nxt.append((s2, ac + (v,)))
                    else:
                        outs.append((s2, err(v)))
            work = nxt
        for s, ac in work:
            m = new_map(I, s, c.dty[2][0] if c.dty[2] else None, ac, c)
            outs += [(s2, ok(v)) for s2, v in m] if m is not None else [(s, ok(("l", ac)))]
        return outs
    m = new_map(I, st, c.dty, it, c)
    if m is not None:
        return m
    return [(st, ("l", tuple(it)))]


def new_map(I, st, ty, items, c):
    """a map with these (key, value) pairs, or None"""
    if not (ty and ty[0] == "adt" and ty[1].endswith(("HashMap", "BTreeMap"))):
        return None
    m = tok(st, "map", ty)
    return [(s, m) for s in map_extend(I, st, m, items, c)]


def map_extend(I, st, m, items, c):
    work = [st]
    for x in items:
        nxt = []
        for s in work:
            y = I.strip(s, x)
            if y is None or y[0] != "a" or len(y[3]) != 2:
                y = ("a", ("tuple",), 0, (None, y))
            for s2, k in maykey(I, s, m, mapkey(I, s, y[3][0])):
                s2.event("mapinsert", m, k, I.strip(s2, y[3][1]), c.site)
                s2.mem[("M", m, k)] = y[3][1]
                s2.mem[("mapval", m, k)] = TRUE
                nxt.append(s2)
        work = nxt
    return work


@A("re:std::iter::Iterator::(filter|filter_map|flat_map|flatten|peekable|step_by|take_while|skip_while|scan|inspect)")
def m_iteropaque(I, st, a, c):
    w, _ = take_iter(I, st, a[0])
    name = c.nice.rsplit("::", 1)[1]
    if w is not None and w[0] == "it" and name in ("filter", "filter_map", "inspect"):
        work = [(st, ())]
        for x in w[1]:
            nxt = []
            for s, ac in work:
                arg = x
                if name in ("filter", "inspect"):
                    cell = ("H", s.fresh())
                    s.mem[cell] = x
                    arg = ("r", cell, ())
                for s2, v in I.apply(s, a[1], [arg], None, c.site):
                    if name == "inspect":
                        nxt.append((s2, ac + (x,)))
                    elif name == "filter":
                        kn = I.known(s2, v) if v is not None else None
                        if kn is None:
                            for b in (0, 1):
                                s3 = s2.fork()
                                s3.conds[v] = b
                                nxt.append((s3, ac + ((x,) if b else ())))
                        else:
                            nxt.append((s2, ac + ((x,) if kn else ())))
                    else:
                        for s3, has, p in split_option(I, s2, v):
                            nxt.append((s3, ac + ((p,) if has else ())))
            work = nxt
        return [(s, ("it", ac)) for s, ac in work]
    if w is not None and w[0] == "it" and name in ("flatten", "flat_map"):
        work = [(st, ())]
        for x in w[1]:
            nxt = []
            for s, ac in work:
                for s2, v in I.apply(s, a[1], [x], None, c.site) if name == "flat_map" else [(s, x)]:
                    for s3, y in inner_items(I, s2, v, c):
                        nxt.append((s3, ac + (y,)))
            work = nxt
        # parts whose items are not known: only one of them alone can be told
        if all(all(isinstance(y, list) for y in ac) or len(ac) == 1 for s, ac in work):
            return [(s, ac[0] if len(ac) == 1 and not isinstance(ac[0], list) else ("it", tuple(z for y in ac for z in y))) for s, ac in work]
    if w is not None and w[0] == "it" and name in ("take_while", "skip_while"):
        work, done = [(st, ())], []
        for k, x in enumerate(w[1]):
            nxt = []
            for s, ac in work:
                cell = ("H", s.fresh())
                s.mem[cell] = x
                for s2, v in I.apply(s, a[1], [("r", cell, ())], None, c.site):
                    kn = I.known(s2, v) if v is not None else None
                    for b in (0, 1) if kn is None else (1 if kn else 0,):
                        s3 = s2.fork() if kn is None else s2
                        if kn is None:
                            s3.conds[v] = b
                        if b:
                            nxt.append((s3, ac + (x,)))
                        else:
                            done.append((s3, ac if name == "take_while" else tuple(w[1][k:])))
            work = nxt
        return [(s, ("it", ac)) for s, ac in done] + [(s, ("it", ac if name == "take_while" else ())) for s, ac in work]
    return [(st, ("t", ("iter", (w,) + tuple(a[1:]), name), c.dty))]


def inner_items(I, st, v, c):
    """[(state, the items of v or, when they are not known, its iterator)]"""
    it = items_of(I, st, v)
    if it is not None:
        return [(st, it)]
    if v is not None and v[0] == "t" and v[2] and v[2][0] == "adt" and v[2][1].endswith("option::Option"):
        return [(s, [p] if has else []) for s, has, p in split_option(I, st, v)]
    out = []
    for s, y in m_into_iter(I, st, [v], c):
        it = items_of(I, s, y)
        out.append((s, it if it is not None else y))
    return out


@A("re:std::iter::Iterator::(any|all|position|find|find_map|count|last|max|min|sum|nth|max_by_key|min_by_key|partition)")
def m_iterquery(I, st, a, c):
    w, ref = take_iter(I, st, a[0])
    name = c.nice.rsplit("::", 1)[1]
    it = items_of(I, st, w)
    if it is not None:
        if name == "count":
            return [(st, ("i", len(it)))]
        if name == "last":
            return [(st, some(it[-1]) if it else NONE)]
        if name == "nth" and a[1][0] == "i":
            k = a[1][1]
            if ref is not None:
                I.store(st, ref[1], ref[2], ("it", tuple(it[k + 1 :])))
            return [(st, some(it[k]) if k < len(it) else NONE)]
        if name in ("any", "all", "position", "find"):
            outs, work = [], [st]
            for k, x in enumerate(it):
                nxt = []
                for s in work:
                    arg = x
                    if name == "find":
                        cell = ("H", s.fresh())
                        s.mem[cell] = x
                        arg = ("r", cell, ())
                    for s2, v in I.apply(s, a[1], [arg], None, c.site):
                        kn = I.known(s2, v)
                        cases = [(s2, kn)] if kn is not None else []
                        if kn is None:
                            for b in (0, 1):
                                s3 = s2.fork()
                                s3.conds[v] = b
                                cases.append((s3, b))
                        for s3, b in cases:
                            if name == "all":
                                b = 1 - b
                            if b:
                                outs.append((s3, {"any": TRUE, "all": FALSE, "position": some(("i", k)), "find": some(x)}[name]))
                            else:
                                nxt.append(s3)
                work = nxt
            end = {"any": FALSE, "all": TRUE, "position": NONE, "find": NONE}[name]
            return outs + [(s, end) for s in work]
    if name in ("any", "all") and w is not None and w[0] == "t" and isinstance(w[1], tuple) and w[1][0] == "iter" and len(w[1]) > 2 and w[1][2] in ("iter", "into_iter"):
        v = membership(I, st, w[1][1], a[1], name, c)
        if v is not None:
            return [(st, v)]
    return [(st, ("t", ("iterq", st.fresh(), name, w) + tuple(a[1:]), c.dty))]


def membership(I, st, xs, f, name, c):
    """iter().any(|x| x == y) and iter().all(|x| x != y), as `contains`"""
    s = st.fork()
    probe = ("t", ("probe",), None)
    cell = ("H", s.fresh())
    s.mem[cell] = probe
    n = len(s.events())
    try:
        outs = I.apply(s, f, [("r", cell, ())], None, c.site)
    except Undecided:
        return None
    if len(outs) != 1 or len(outs[0][0].events()) != n:
        return None
    v, neg = outs[0][1], False
    if v is not None and v[0] == "x" and v[1] == "Not":
        v, neg = v[2], True
    if v is None or v[0] != "x" or v[1] != "Eq" or neg != (name == "all"):
        return None
    for p, y in ((v[2], v[3]), (v[3], v[2])):
        if undisp(p) == probe and "probe" not in repr(y):
            t = ("x", "contains", xs, undisp(y))
            return I.neg(t) if neg else t
    return None


@A("std::vec::from_elem")
def m_fromelem(I, st, a, c):
    if a[1] is None or a[1][0] != "i" or not 0 <= a[1][1] <= 64:
        return None
    return [(st, ("l", (a[0],) * a[1][1]))]


@A("re:std::vec::Vec::<.*>::new", "re:std::vec::Vec::<.*>::with_capacity")
def m_vecnew(I, st, a, c):
    return [(st, ("l", ()))]


@A("std::default::Default::default")
def m_default(I, st, a, c):
    t = c.dty[1] if c.dty and c.dty[0] == "adt" else None
    res = c.f[5]
    if res is not None and res[0] == "item" and res[1] in I.F.fns and not res[1].startswith(("core::", "alloc::", "std::")):
        return None
    v = {"alloc::string::String": ("s", ""), "alloc::vec::Vec": ("l", ()), "core::option::Option": NONE}.get(t)
    if v is None and c.dty and c.dty[0] == "prim":
        v = ("s", "") if c.dty[1] == "str" else ("i", 0)
    if c.dty == ("tuple", ()):
        v = UNIT
    return [(st, v or tok(st, "default", c.dty))]


@A("re:std::slice::<impl \\[T\\]>::into_vec", "std::slice::hack::into_vec", "re:.*box_assume_init_into_vec_unsafe", "re:std::vec::from_elem_never", "re:.*<impl \\[T\\]>::(to_vec|into_vec)")
def m_into_vec(I, st, a, c):
    w = I.strip(st, a[0])
    # a box filled through a raw pointer: the array is the only part that is set
    while w is not None and w[0] == "a" and w[1] == ("tuple",) and len(w[3]) > 1 and len([x for x in w[3] if x is not None]) == 1 and c.nice.endswith("box_assume_init_into_vec_unsafe"):
        w = next(x for x in w[3] if x is not None)
    it = items_of(I, st, w)
    if it is None:
        return [(st, w if w is not None else tok(st, "vec", c.dty))]
    return [(st, ("l", tuple(it)))]


@A("re:std::boxed::Box::<.*>::new_uninit", "re:std::boxed::box_new_uninit.*", "re:alloc::boxed::box_new_uninit.*")
def m_uninit(I, st, a, c):
    cell = ("H", st.fresh())
    st.mem[cell] = None
    return [(st, ("r", cell, ()))]


@A("re:std::boxed::Box::<.*>::(write)")
def m_boxwrite(I, st, a, c):
    I.store(st, a[0][1], a[0][2], a[1])
    return [(st, a[0])]


@A("re:.*box_uninit_as_mut_ptr", "re:std::boxed::Box::<.*>::as_mut_ptr", "re:std::mem::MaybeUninit::<.*>::as_mut_ptr", "re:std::boxed::Box::<.*>::assume_init")
def m_ident(I, st, a, c):
    return [(st, a[0])]


@A("re:std::vec::Vec::<.*>::push", "re:std::vec::Vec::<.*>::push_within_capacity")
def m_push(I, st, a, c):
    c1, p1 = I.deref_loc(st, a[0])
    x = I.load(st, c1, p1)
    if x is not None and x[0] == "l":
        I.store(st, c1, p1, ("l", x[1] + (a[1],)))
    else:
        st.event("push", x, a[1], c.site)
        I.store(st, c1, p1, ("t", ("pushed", x, I.strip(st, a[1])), x[2] if x is not None and x[0] == "t" else None))
    return [(st, UNIT)]


@A("re:std::vec::Vec::<.*>::pop")
def m_pop(I, st, a, c):
    c1, p1 = I.deref_loc(st, a[0])
    x = I.load(st, c1, p1)
    if x is not None and x[0] == "l":
        if not x[1]:
            return [(st, NONE)]
        I.store(st, c1, p1, ("l", x[1][:-1]))
        return [(st, some(x[1][-1]))]
    return [(st, tok(st, "pop", c.dty, x))]


@A("re:std::vec::Vec::<.*>::remove", "re:std::vec::Vec::<.*>::swap_remove")
def m_remove(I, st, a, c):
    c1, p1 = I.deref_loc(st, a[0])
    x = I.load(st, c1, p1)
    if x is not None and x[0] == "l" and a[1][0] == "i" and a[1][1] < len(x[1]):
        k = a[1][1]
        l = list(x[1])
        v = l[k]
        if c.nice.endswith("swap_remove"):
            l[k] = l[-1]
            l.pop()
        else:
            del l[k]
        I.store(st, c1, p1, ("l", tuple(l)))
        return [(st, v)]
    t = ("t", ("removed", st.fresh(), x, a[1]), c.dty)
    st.event("vecremove", x, a[1], t, ("r", c1, p1), c.site)
    I.store(st, c1, p1, ("t", ("vecless", x, a[1]), x[2] if x is not None and x[0] == "t" else None))
    return [(st, t)]


@A("re:std::vec::Vec::<.*>::(insert)", "re:std::vec::Vec::<.*>::(append|extend|truncate|clear|retain|extend_from_slice)", "std::iter::Extend::extend")
def m_vecmut(I, st, a, c):
    c1, p1 = I.deref_loc(st, a[0])
    x = I.load(st, c1, p1)
    name = c.nice.rsplit("::", 1)[1]
    if name == "extend" and x is not None and x[0] == "t" and x[1][0] == "map":
        it = items_of(I, st, take_iter(I, st, a[1])[0])
        if it is not None and all(y is not None and (I.strip(st, y) or ("",))[0] == "a" for y in it):
            return [(s, UNIT) for s in map_extend(I, st, x, it, c)]
    if x is not None and x[0] == "l":
        if name == "insert" and a[1][0] == "i":
            l = list(x[1])
            l.insert(a[1][1], a[2])
            I.store(st, c1, p1, ("l", tuple(l)))
            return [(st, UNIT)]
        if name in ("extend", "extend_from_slice", "append"):
            it = items_of(I, st, a[1])
            if it is not None:
                if name != "extend":
                    it = [I.load(st, y[1], y[2]) if y is not None and y[0] == "r" and a[1][0] == "r" else y for y in it]
                I.store(st, c1, p1, ("l", x[1] + tuple(it)))
                if name == "append" and a[1][0] == "r":
                    c2, p2 = I.deref_loc(st, a[1])
                    I.store(st, c2, p2, ("l", ()))
                return [(st, UNIT)]
        if name == "clear":
            I.store(st, c1, p1, ("l", ()))
            return [(st, UNIT)]
        n = I.strip(st, a[1]) if name == "truncate" else None
        if n is not None and n[0] == "i":
            I.store(st, c1, p1, ("l", x[1][: n[1]]))
            return [(st, UNIT)]
    st.event("vecmut", name, x, tuple(a[1:]), c.site)
    I.store(st, c1, p1, ("t", ("vecmut", st.fresh(), name, x) + tuple(a[1:]), None))
    return [(st, UNIT)]


@A("re:std::vec::Vec::<.*>::len", "re:.*<impl \\[T\\]>::len", "re:(core|std|alloc)::str::<impl str>::len", "std::string::String::len", "std::iter::ExactSizeIterator::len")
def m_len(I, st, a, c):
    return [(st, I.length(I.strip(st, a[0])))]


@A("re:std::vec::Vec::<.*>::is_empty", "re:.*<impl \\[T\\]>::is_empty", "re:(core|std|alloc)::str::<impl str>::is_empty", "std::string::String::is_empty", "re:std::collections::.*::is_empty")
def m_is_empty(I, st, a, c):
    n = I.length(I.strip(st, a[0]))
    return [(st, I.binop(st, "Eq", n, ("i", 0)))]


@A("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(I, st, a, c):
    c1, p1 = I.deref_loc(st, a[0])
    x = I.load(st, c1, p1)
    while x is not None and x[0] == "r":
        c1, p1 = x[1], x[2]
        x = I.load(st, c1, p1)
    if x is not None and x[0] == "t" and x[1][0] == "map":
        return m_mapindex(I, st, a, c)
    idx = I.strip(st, a[1])
    if x is not None and (x[0] == "l" or (x[0] == "a" and x[1][0] == "array")) and idx is not None and idx[0] == "i":
        n = len(x[1]) if x[0] == "l" else len(x[3])
        if idx[1] >= n:
            I.finished.append(Path(st, "panic", ("s", "index out of bounds"), c.site))
            return []
        return [(st, ("r", c1, p1 + (("i", idx),)))]
    if x is not None and (x[0] == "l" or (x[0] == "a" and x[1][0] == "array")) and idx is not None and idx[0] == "a" and "ops::range" in str(idx[1]):
        items = list(x[1] if x[0] == "l" else x[3])
        kind = idx[1][1].rsplit("::", 1)[1]
        b = [y[1] if y and y[0] == "i" else None for y in idx[3]]
        sl = None
        if kind == "RangeFrom" and b[0] is not None:
            sl = items[b[0] :]
        elif kind == "RangeTo" and b[0] is not None:
            sl = items[: b[0]]
        elif kind == "Range" and None not in b:
            sl = items[b[0] : b[1]]
        elif kind == "RangeFull":
            sl = items
        if sl is not None:
            cell = ("H", st.fresh())
            st.mem[cell] = ("l", tuple(sl))
            return [(st, ("r", cell, ()))]
    ety = c.dty[2] if c.dty and c.dty[0] == "ref" else None
    t = ("t", ("index", x, idx), ety)
    st.event("index", x, idx, t, c.site)
    # distinct mutable views of one element share a cell
    cell = ("E", x, idx)
    if cell not in st.mem:
        st.mem[cell] = t
    return [(st, ("r", cell, ()))]


@A("re:.*<impl \\[T\\]>::(first|last|get|first_mut|last_mut|get_mut)", "re:std::vec::Vec::<.*>::(first|last|get)")
def m_get(I, st, a, c):
    it = items_of(I, st, a[0])
    name = c.nice.rsplit("::", 1)[1]
    if it is not None:
        if name.startswith("first"):
            return [(st, some(it[0]) if it else NONE)]
        if name.startswith("last"):
            return [(st, some(it[-1]) if it else NONE)]
        if a[1][0] == "i":
            return [(st, some(it[a[1][1]]) if a[1][1] < len(it) else NONE)]
    return [(st, tok(st, "get", c.dty, I.strip(st, a[0]), name, *[I.strip(st, x) for x in a[1:]]))]


# ------------------------------------------------------------------ options / results (fallback when core's MIR is not around)
@A("re:std::(option|result)::(Option|Result)::<.*>::(as_ref|as_mut|iter)")
def m_as_ref(I, st, a, c):
    v = a[0]
    w = I.strip(st, v)
    isopt = "option" in c.nice.split("::")[1]
    key = "core::option::Option" if isopt else "core::result::Result"
    if w is not None and w[0] == "a":
        if not w[3]:
            return [(st, w)]
        if v[0] == "r":
            base = v
            while True:
                x = I.load(st, base[1], base[2])
                if x is not None and x[0] == "r":
                    base = x
                else:
                    break
            return [(st, adt(key, w[2], ("r", base[1], base[2] + (("d", w[2]), ("f", 0)))))]
        return [(st, adt(key, w[2], w[3][0]))]
    return [(st, w)]


@A("re:either::Either::<.*>::either(_with)?")
def m_either(I, st, a, c):
    v = I.strip(st, a[0])
    ctx = [a[1]] if c.nice.endswith("_with") else []
    a = [a[0]] + list(a[1 + len(ctx) :])
    outs = []
    for k in (0, 1):
        if v is not None and v[0] == "a":
            if v[2] != k:
                continue
            x, s2 = v[3][0], st
        else:
            if st.tags.get(v, k) != k:
                continue
            s2 = st.fork()
            s2.tags[v] = k
            x = I.fld(v, k, 0)
        outs += I.apply(s2, a[1 + k], ctx + [x], c.dty, c.site)
    return outs


# ------------------------------------------------------------------ channels
def chan(I, st, v):
    return I.strip(st, v)


@A("crossbeam_channel::bounded", "crossbeam_channel::unbounded", "std::sync::mpsc::channel", "std::sync::mpsc::sync_channel", "crossbeam_channel::never", "crossbeam_channel::at", "crossbeam_channel::after", "crossbeam_channel::tick")
def m_bounded(I, st, a, c):
    n = st.fresh()
    cap = a[0] if a else None
    tx = rx = None
    if c.dty and c.dty[0] == "tuple" and len(c.dty[1]) == 2:
        tx, rx = c.dty[1]
    st.event("chan", n, c.nice, cap, c.site)
    return [(st, tup(("t", ("chan", n, "tx"), tx), ("t", ("chan", n, "rx"), rx)))]


@A("re:crossbeam_channel::Sender::<T>::(send|try_send|send_timeout|send_deadline)", "re:std::sync::mpsc::(Sync)?Sender::<T>::(send|try_send)")
def m_send(I, st, a, c):
    mode = c.nice.rsplit("::", 1)[1]
    res = ("t", ("sendres", st.fresh()), c.dty)
    lim = I.strip(st, a[2]) if len(a) > 2 else None
    st.event("send", chan(I, st, a[0]), a[1], mode, lim, res, c.site)
    return [(st, res)]


@A("re:crossbeam_channel::Receiver::<T>::(recv|try_recv|recv_timeout|recv_deadline)", "re:std::sync::mpsc::Receiver::<T>::(recv|try_recv|recv_timeout)")
def m_recv(I, st, a, c):
    mode = c.nice.rsplit("::", 1)[1]
    res = ("t", ("recvres", st.fresh()), c.dty)
    lim = I.strip(st, a[1]) if len(a) > 1 else None
    st.event("recv", chan(I, st, a[0]), mode, lim, res, c.site)
    return [(st, res)]


@A("re:crossbeam_channel::(select::)?Select::<.*>::(recv|send)")
def m_selreg(I, st, a, c):
    t = tok(st, "selidx", c.dty)
    st.event("selreg", c.nice.rsplit("::", 1)[1], I.strip(st, a[1]), t, c.site)
    return [(st, t)]


@A("re:crossbeam_channel::(select::)?Select::<.*>::(ready|select)")
def m_selwait(I, st, a, c):
    kind = c.nice.rsplit("::", 1)[1]
    t = tok(st, kind, c.dty)
    st.event("selwait", kind, t, c.site)
    return [(st, t)]


@A("re:crossbeam_channel::(select::)?SelectedOperation::<.*>::index")
def m_selindex(I, st, a, c):
    return [(st, ("x", "selindex", I.strip(st, a[0])))]


@A("re:crossbeam_channel::(select::)?SelectedOperation::<.*>::recv")
def m_selrecv(I, st, a, c):
    res = ("t", ("recvres", st.fresh()), c.dty)
    st.event("recv", chan(I, st, a[1]), "selected", I.strip(st, a[0]), res, c.site)
    return [(st, res)]


@A("re:crossbeam_channel::(err::)?(TryRecvError|TryRecvError::)::is_empty")
def m_tryempty(I, st, a, c):
    return [(st, ("x", "is_empty_err", I.strip(st, a[0])))]


@A("re:crossbeam_channel::(err::)?(TryRecvError|RecvTimeoutError)::is_disconnected")
def m_isdisc(I, st, a, c):
    t = I.strip(st, a[0])
    if t is not None and t[0] == "a":
        return [(st, ("i", int(t[2] == 1)))]
    if t is None or t[0] != "t":
        return [(st, ("x", "is_disconnected", t))]
    if t in st.tags:
        return [(st, ("i", int(st.tags[t] == 1)))]
    s2 = st.fork()
    st.tags[t] = 1
    s2.tags[t] = 0
    return [(st, ("i", 1)), (s2, ("i", 0))]


@A("re:crossbeam_channel::(Receiver|Sender)::<T>::(len|is_empty|is_full|capacity|same_channel|iter|try_iter)")
def m_chanq(I, st, a, c):
    t = tok(st, "chanq", c.dty, c.nice.rsplit("::", 1)[1], chan(I, st, a[0]))
    st.event("chanq", c.nice.rsplit("::", 1)[1], chan(I, st, a[0]), t, c.site)
    return [(st, t)]


# ------------------------------------------------------------------ sessions, roles, names: fresh dual pairs
def pairs(kind):
    def m(I, st, a, c):
        if getattr(I, "follow_new", None) and I.follow_new(c):
            return None
        n = st.fresh()
        selfty = c.targs[0] if c.targs else None
        t0 = t1 = None
        if c.dty and c.dty[0] == "tuple" and len(c.dty[1]) == 2:
            t0, t1 = I.F.norm(c.dty[1][0]), I.F.norm(c.dty[1][1])
        if selfty is not None:
            selfty = I.F.norm(selfty)
            t0 = selfty
        st.event("new", kind, n, selfty, c.site)
        return [(st, tup(("t", ("new", kind, n, 0), t0), ("t", ("new", kind, n, 1), t1)))]

    return m


STD.exact["mpstthree::binary::struct_trait::session::Session::new"] = pairs("session")
STD.exact["mpstthree::role::Role::new"] = pairs("role")
STD.exact["mpstthree::name::Name::new"] = pairs("name")


# ------------------------------------------------------------------ sockets
@A("re:std::io::Read::(read|read_exact|read_to_end|read_to_string)", "re:std::net::UdpSocket::(recv|recv_from|peek|peek_from)", "re:std::net::TcpStream::peek")
def m_ioread(I, st, a, c):
    n = st.fresh()
    c1, p1 = I.deref_loc(st, a[1])
    old = I.load(st, c1, p1)
    data = ("t", ("io", n), old[2] if old is not None and old[0] == "t" else None)
    I.store(st, c1, p1, data)
    res = ("t", ("iores", n), c.dty)
    st.event("ioread", c.nice.rsplit("::", 1)[1], I.strip(st, a[0]), data, res, c.site)
    return [(st, res)]


@A("re:std::io::Write::(write|write_all|flush)", "re:std::net::UdpSocket::(send|send_to)")
def m_iowrite(I, st, a, c):
    res = ("t", ("iores", st.fresh()), c.dty)
    st.event("iowrite", c.nice.rsplit("::", 1)[1], I.strip(st, a[0]), I.strip(st, a[1]) if len(a) > 1 else None, res, c.site)
    return [(st, res)]


@A("re:std::net::(TcpStream|UdpSocket)::(connect|bind|try_clone|shutdown|set_nonblocking|set_read_timeout|set_write_timeout|set_nodelay)")
def m_sock(I, st, a, c):
    res = ("t", ("iores", st.fresh()), c.dty)
    st.event("sock", c.nice.split("std::net::", 1)[1], tuple(I.strip(st, x) for x in a), res, c.site)
    return [(st, res)]


# ------------------------------------------------------------------ external programs
@A("re:std::process::Command::new")
def m_cmdnew(I, st, a, c):
    return [(st, ("a", ("cmd",), 0, (I.strip(st, a[0]),)))]


@A("re:std::process::Command::(arg|args)")
def m_cmdarg(I, st, a, c):
    c1, p1 = I.deref_loc(st, a[0])
    x = I.load(st, c1, p1)
    if x is None or x[0] != "a" or x[1] != ("cmd",):
        return None
    v = I.strip(st, a[1])
    more = (v,)
    if c.nice.endswith("::args"):
        items = items_of(I, st, a[1])
        if items is None:
            return None
        more = tuple(I.strip(st, y) for y in items)
    I.store(st, c1, p1, ("a", ("cmd",), 0, x[3] + more))
    return [(st, a[0])]


@A("re:std::process::Command::(output|status|spawn)")
def m_cmdrun(I, st, a, c):
    x = I.strip(st, a[0])
    res = ("t", ("cmdres", st.fresh()), c.dty)
    st.event("tool", c.nice.rsplit("::", 1)[1], x[3] if x is not None and x[0] == "a" and x[1] == ("cmd",) else None, res, c.site)
    return [(st, res)]


@A("re:(std|core|alloc)::(str|string)::(converts::)?from_utf8", "re:std::string::String::from_utf8", "re:(std|core|alloc)::str::<impl str>::from_utf8")
def m_utf8(I, st, a, c):
    return [(st, ("t", ("utf8", st.fresh(), I.strip(st, a[0])), c.dty))]


@A("re:std::string::String::from_utf8_lossy", "re:std::borrow::Cow::<.*>::into_owned")
def m_lossy(I, st, a, c):
    return [(st, I.strip(st, a[0]))]


@A("re:.*str::<impl str>::(contains|starts_with|ends_with)")
def m_contains(I, st, a, c):
    x, y = I.strip(st, a[0]), I.strip(st, a[1])
    if x is not None and y is not None and x[0] == "s" and y[0] == "s" and c.nice.endswith("contains"):
        return [(st, ("i", int(y[1] in x[1])))]
    t = tok(st, "strtest", c.dty)
    st.event("strtest", c.nice.rsplit("::", 1)[1], x, y, t, c.site)
    return [(st, t)]


# ------------------------------------------------------------------ threads and panics
@A("re:std::thread::Builder::spawn", "std::thread::spawn", "re:std::thread::Builder::spawn_unchecked", "std::thread::spawn_unchecked")
def m_spawn(I, st, a, c):
    f = a[-1]
    h = ("t", ("thread", st.fresh()), c.dty)
    st.event("spawn", f, h, c.site)
    return [(st, h)]


@A("std::thread::Builder::new")
def m_builder(I, st, a, c):
    return [(st, tok(st, "builder", c.dty))]


@A("re:std::thread::Builder::(name|stack_size)")
def m_bname(I, st, a, c):
    return [(st, a[0])]


@A("re:std::thread::JoinHandle::<T>::join")
def m_join(I, st, a, c):
    t = tok(st, "joined", c.dty, a[0])
    st.event("join", a[0], t, c.site)
    return [(st, t)]


@A("std::panic::set_hook", "std::panic::take_hook", "std::panicking::set_hook", "std::panicking::take_hook", "std::io::_print", "std::io::_eprint", "std::io::stdio::_print")
def m_ignore(I, st, a, c):
    return [(st, UNIT if c.dty is None or c.dty[0] == "tuple" else tok(st, "ign", c.dty))]


@A("std::panic::catch_unwind", "std::panicking::try", "std::panicking::catch_unwind")
def m_catch(I, st, a, c):
    st.event("catch_unwind", a[0], c.site)
    return None


@A("std::panic::resume_unwind")
def m_resume(I, st, a, c):
    I.finished.append(Path(st, "panic", a[0], c.site))
    return []


@A(
    "re:core::panicking::.*", "re:std::rt::(begin_panic|panic_fmt|panic_display|begin_panic_fmt).*", "re:std::panicking::begin_panic.*",
    "re:core::(option|result)::(unwrap_failed|expect_failed|expect_none_failed)", "re:std::(option|result)::(unwrap_failed|expect_failed)",
    "std::rt::panic_fmt", "std::rt::panic_display", "std::panic::panic_any", "std::panicking::panic_any", "re:core::panicking::panic_.*", "re:alloc::raw_vec::capacity_overflow",
)
def m_panic(I, st, a, c):
    msg = disp(I, st, a[0]) if a else ("s", "panic")
    I.finished.append(Path(st, "panic", msg, c.site))
    return []


@A("core::result::Result::<T, E>::unwrap_or", "std::result::Result::<T, E>::unwrap_or")
def m_unwrap_or(I, st, a, c):
    # a unit result is the same value either way: its variant is not looked at
    if c.dty is not None and c.dty[0] == "tuple" and not c.dty[1:][0]:
        return [(st, UNIT)]
    return None


@A("std::process::exit", "std::process::abort")
def m_exit(I, st, a, c):
    I.finished.append(Path(st, "exit", a[0] if a else None, c.site))
    return []


# ------------------------------------------------------------------ time
@A("std::time::Instant::now")
def m_now(I, st, a, c):
    t = tok(st, "now", c.dty)
    st.event("now", t, c.site)
    return [(st, t)]


@A("std::time::Instant::elapsed")
def m_elapsed(I, st, a, c):
    v = I.strip(st, a[0])
    st.event("elapsed", v, c.site)
    return [(st, ("x", "elapsed", v))]


@A("re:std::time::Instant::(duration_since|saturating_duration_since)")
def m_since(I, st, a, c):
    # now.duration_since(start)
    v, w = I.strip(st, a[0]), I.strip(st, a[1])
    if v is not None and v[0] == "t" and v[1][0] == "now":
        return [(st, ("x", "elapsed", w))]
    return [(st, ("x", "since", v, w))]


@A("re:std::time::Duration::(from_secs|from_millis|from_micros|from_nanos|from_secs_f64|from_secs_f32|from_mins)")
def m_from_secs(I, st, a, c):
    u = c.nice.rsplit("_", 1)[1] if "f64" not in c.nice and "f32" not in c.nice else "secs_f"
    return [(st, ("x", "dur", u, a[0]))]


@A("re:std::time::Duration::(as_secs|as_millis|as_micros|as_nanos|as_secs_f64|as_secs_f32|subsec_.*)")
def m_as_secs(I, st, a, c):
    v = I.strip(st, a[0])
    name = c.nice.rsplit("::", 1)[1]
    if v[0] == "x" and v[1] == "dur" and name == "as_" + v[2]:
        return [(st, v[3])]
    return [(st, ("x", name, v))]


@A("re:std::time::Duration::(checked_sub|saturating_sub|checked_add|saturating_add)")
def m_dursub(I, st, a, c):
    name = c.nice.rsplit("::", 1)[1]
    x, y = I.strip(st, a[0]), I.strip(st, a[1])
    op = "Sub" if "sub" in name else "Add"
    v = ("x", op, x, y)
    if name.startswith("saturating"):
        return [(st, v)]
    r = ("t", (name, st.fresh()), c.dty)
    s1 = st.fork()
    s1.conds[("x", "durfits", v)] = 0
    st.conds[("x", "durfits", v)] = 1
    return [(st, some(v)), (s1, NONE)]


@A("re:std::cmp::(Partial)?Ord::(cmp|partial_cmp|min|max)", "re:std::cmp::(min|max)")
def m_ordcall(I, st, a, c):
    """kept as a call with its operands' values, so that conditions over its outcome can be evaluated"""
    res = c.f[5]
    if res is not None and res[0] == "item" and res[1] in I.F.fns and not res[1].startswith(("core::", "alloc::", "std::")):
        return None
    x, y = I.strip(st, a[0]), I.strip(st, a[1])
    name = c.nice.rsplit("::", 1)[1]
    if name in ("min", "max"):
        return [(st, ("x", name, x, y))]
    t = tok(st, "call", c.dty, c.nice)
    t = ("t", ("call", t[1][1], c.nice), c.dty)
    st.event("call", c.nice, (x, y), t, c.site)
    return [(st, some(t) if name == "partial_cmp" else t)]


@A("re:std::ops::Range(Inclusive|From|To|ToInclusive)?::<.*>::contains", "re:std::ops::RangeBounds::contains")
def m_rangecontains(I, st, a, c):
    r = I.strip(st, a[0])
    x = I.strip(st, a[1])
    if r is None or r[0] != "a" or r[1][0] != "adt":
        return None
    n = r[1][1].rsplit("::", 1)[1]
    f = [I.strip(st, y) for y in r[3]]
    lo = hi = None
    if n in ("Range", "RangeInclusive") and len(f) >= 2:
        lo, hi = f[0], f[1]
    elif n == "RangeFrom":
        lo = f[0]
    elif n in ("RangeTo", "RangeToInclusive"):
        hi = f[0]
    else:
        return None
    t = TRUE
    if lo is not None:
        t = I.binop(st, "Le", lo, x)
    if hi is not None:
        h = I.binop(st, "Le" if "Inclusive" in n else "Lt", x, hi)
        t = I.binop(st, "BitAnd", t, h)
    return [(st, t)]


@A("re:std::ops::RangeInclusive::<.*>::new")
def m_rangenew(I, st, a, c):
    return [(st, ("a", ("adt", "core::ops::range::RangeInclusive", ()), 0, (a[0], a[1])))]


# ------------------------------------------------------------------ maps: every operation is an event
@A("re:std::collections::(HashMap|BTreeMap|HashSet|BTreeSet)::<.*>::(new|with_capacity|with_hasher|with_capacity_and_hasher)")
def m_mapnew(I, st, a, c):
    return [(st, tok(st, "map", c.dty))]


def mapkey(I, st, v):
    return undisp(I.strip(st, v))


def maykey(I, st, w, k):
    """[(state, key)]: the key itself, or a key written before on this path
    that it may be equal to (the equality is then a condition of the path)"""
    outs = []
    if ("mapval", w, k) not in st.mem:
        for cell in reversed([x for x in st.mem if isinstance(x, tuple) and x and x[0] == "mapval" and x[1] == w]):
            k2 = cell[2]
            t = I.binop(st, "Eq", k, k2)
            v = t[1] if t[0] == "i" else I.oracle(t) if I.oracle is not None else None
            if v is not None and not v:
                continue
            if v is None:
                s2 = st.fork()
                st = st.fork()
                if t[0] == "x" and t[1] == "Not":
                    s2.conds[t[2]], st.conds[t[2]] = 0, 1
                else:
                    s2.conds[t], st.conds[t] = 1, 0
                outs.append((s2, k2))
                continue
            return outs + [(st, k2)]
    return outs + [(st, k)]


def present(I, st, w, k):
    """(term, 1/0/None): whether the map holds the key now"""
    has = ("x", "has", w, k, 0)
    v = st.mem.get(("mapval", w, k))
    if v is not None:
        return has, v[1]
    if w is not None and w[0] == "t" and w[1][0] == "map":
        return has, 0  # made on this path
    return has, I.known(st, has)


def mapcell(st, w, k, vty):
    cell = ("M", w, k)
    if cell not in st.mem:
        st.mem[cell] = ("t", ("mapval", w, k), vty)
    return cell


def split_has(I, st, w, k):
    has, kn = present(I, st, w, k)
    outs = []
    if kn is None or kn:
        s2 = st.fork()
        if kn is None:
            s2.conds[has] = 1
        outs.append((s2, 1))
    if kn is None or not kn:
        s2 = st.fork()
        if kn is None:
            s2.conds[has] = 0
        outs.append((s2, 0))
    return outs


@A("re:std::collections::(HashMap|BTreeMap)::<.*>::(get|get_mut|contains_key|get_key_value)", "re:std::collections::(HashSet|BTreeSet)::<.*>::contains")
def m_mapget(I, st, a, c):
    w = I.strip(st, a[0])
    op = c.nice.rsplit("::", 1)[1]
    vty = None
    if c.dty and c.dty[0] == "adt" and c.dty[2] and c.dty[2][0][0] == "ref":
        vty = c.dty[2][0][2]
    outs = []
    for st, k in maykey(I, st, w, mapkey(I, st, a[1])):
        if op.startswith("contains"):
            has, kn = present(I, st, w, k)
            if kn is not None:
                outs.append((st, ("i", kn)))
                continue
            st.event("maphas", w, k, has, c.site)
            outs.append((st, has))
            continue
        st.event("mapget", w, k, op, c.site)
        cell = mapcell(st, w, k, vty)
        for s2, h in split_has(I, st, w, k):
            outs.append((s2, some(("r", cell, ())) if h else NONE))
    return outs


@A("re:<std::collections::(HashMap|BTreeMap)<.*> as std::ops::Index<.*>>::index")
def m_mapindex(I, st, a, c):
    w = I.strip(st, a[0])
    vty = c.dty[2] if c.dty and c.dty[0] == "ref" else None
    outs = []
    for st, k in maykey(I, st, w, mapkey(I, st, a[1])):
        st.event("mapget", w, k, "index", c.site)
        cell = mapcell(st, w, k, vty)
        for s2, h in split_has(I, st, w, k):
            if h:
                outs.append((s2, ("r", cell, ())))
            else:
                I.finished.append(Path(s2, "panic", ("s", "no such key"), c.site))
    return outs


def entries_of(st, w):
    """[(key, cell)] of a map made on this path, or None"""
    if w is None or w[0] != "t" or w[1][0] != "map":
        return None
    out = []
    for cell in st.mem:
        if isinstance(cell, tuple) and cell and cell[0] == "mapval" and cell[1] == w and st.mem[cell] == TRUE:
            if ("M", w, cell[2]) not in st.mem:
                return None
            out.append((cell[2], ("M", w, cell[2])))
    return out


@A("re:std::collections::(HashMap|BTreeMap)::<.*>::(iter|iter_mut|keys|values|values_mut)")
def m_mapiter(I, st, a, c):
    es = entries_of(st, I.strip(st, a[0]))
    if es is None:
        return None
    op = c.nice.rsplit("::", 1)[1]
    return [(st, ("it", tuple(entry_items(st, es, op))))]


def entry_items(st, es, op):
    def ref(k):
        cell = ("H", st.fresh())
        st.mem[cell] = k
        return ("r", cell, ())

    if op == "keys":
        items = [ref(k) for k, _ in es]
    elif op.startswith("values"):
        items = [("r", cell, ()) for _, cell in es]
    else:
        items = [("a", ("tuple",), 0, (ref(k), ("r", cell, ()))) for k, cell in es]
    return items


@A("re:std::collections::(HashMap|BTreeMap)::<.*>::insert")
def m_mapinsert(I, st, a, c):
    w = I.strip(st, a[0])
    v = a[2]
    outs = []
    for st, k in maykey(I, st, w, mapkey(I, st, a[1])):
        st.event("mapinsert", w, k, I.strip(st, v), c.site)
        st.mem[("M", w, k)] = v
        st.mem[("mapval", w, k)] = TRUE
        outs.append((st, tok(st, "old", c.dty)))
    return outs


@A("re:std::collections::(HashMap|BTreeMap)::<.*>::remove")
def m_mapremove(I, st, a, c):
    w = I.strip(st, a[0])
    outs = []
    vty = c.dty[2][0] if c.dty and c.dty[0] == "adt" and c.dty[2] else None
    for st, k in maykey(I, st, w, mapkey(I, st, a[1])):
        st.event("mapremove", w, k, c.site)
        cell = mapcell(st, w, k, vty)
        for s2, h in split_has(I, st, w, k):
            v = s2.mem[cell]
            s2.mem[cell] = ("t", ("mapval", w, k), vty)
            s2.mem[("mapval", w, k)] = FALSE
            outs.append((s2, some(v) if h else NONE))
    return outs


@A("re:std::collections::(HashMap|BTreeMap)::<.*>::entry")
def m_mapentry(I, st, a, c):
    w = I.strip(st, a[0])
    vty = c.dty[2][-1] if c.dty and c.dty[0] == "adt" and c.dty[2] else None
    return [(s2, ("x", "entry", w, k, vty)) for s2, k in maykey(I, st, w, mapkey(I, st, a[1]))]


@A("re:std::collections::(hash_map|btree_map)::Entry::<.*>::(or_insert|or_insert_with|or_default)", "re:std::collections::(hash|btree)::map::Entry::<.*>::(or_insert|or_insert_with|or_default)", "re:std::collections::btree::map::entry::Entry::<.*>::(or_insert|or_insert_with|or_default)")
def m_mapentry_or(I, st, a, c):
    e = I.strip(st, a[0])
    if e is None or e[0] != "x" or e[1] != "entry":
        return None
    w, k, vty = e[2], e[3], e[4]
    op = c.nice.rsplit("::", 1)[1]
    st.event("mapget", w, k, op, c.site)
    cell = mapcell(st, w, k, vty)
    outs = []
    for s2, h in split_has(I, st, w, k):
        if h:
            outs.append((s2, ("r", cell, ())))
            continue
        if op == "or_insert":
            made = [(s2, a[1])]
        elif op == "or_insert_with":
            made = I.apply(s2, a[1], [])
        else:
            ty = c.dty[2] if c.dty and c.dty[0] == "ref" else vty
            made = [(s2, empty_of(s2, ty))]
        for s3, v in made:
            s3.event("mapinsert", w, k, I.strip(s3, v), c.site)
            s3.mem[cell] = v
            s3.mem[("mapval", w, k)] = TRUE
            outs.append((s3, ("r", cell, ())))
    return outs


def empty_of(st, ty):
    if ty and ty[0] == "adt" and ty[1].rsplit("::", 1)[1] == "String":
        return ("s", "")
    if ty and ty[0] == "adt" and ty[1].rsplit("::", 1)[1] == "Vec":
        return ("l", ())
    return tok(st, "map", ty)


# ------------------------------------------------------------------ parsing and patterns: pure functions of the text
@A("re:(core|std|alloc)::str::<impl str>::parse", "re:<.* as std::str::FromStr>::from_str")
def m_parse(I, st, a, c):
    v = undisp(I.strip(st, a[0]))
    if v is None:
        return None
    return [(st, ("t", ("parse", v), c.dty))]


@A("re:regex::Regex::(captures|find)")
def m_captures(I, st, a, c):
    t = ("t", (c.nice.rsplit("::", 1)[1], I.strip(st, a[0]), undisp(I.strip(st, a[1]))), c.dty)
    st.event("regex", t, c.site)
    return [(st, t)]


@A("inflector::Inflector::to_title_case", "re:(core|std|alloc)::str::<impl str>::(chars|trim|trim_start|trim_end|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|split_whitespace|split_ascii_whitespace|lines|bytes|char_indices)", "re:inflector::Inflector::to_.*", "re:<.* as inflector::Inflector>::to_.*")
def m_textfn(I, st, a, c):
    v = undisp(I.strip(st, a[0]))
    if v is None or v[0] == "s":
        return None
    return [(st, ("t", (c.nice.rsplit("::", 1)[1], v), c.dty))]


@A("re:(core|std|alloc)::str::<impl str>::(replace|repeat|split)")
def m_textfn2(I, st, a, c):
    v = [undisp(I.strip(st, x)) for x in a]
    if v[0] is None or v[0][0] == "s" or any(x is None or x[0] not in ("s", "i", "f") for x in v[1:]):
        return None
    return [(st, ("t", (c.nice.rsplit("::", 1)[1],) + tuple(v), c.dty))]


@A("re:(std|core)::char::methods::<impl char>::(is_\\w+|to_ascii_\\w+)")
def m_chartest(I, st, a, c):
    v = I.strip(st, a[0])
    n = c.nice.rsplit("::", 1)[1]
    if v is None:
        return None
    if v[0] == "i" and n in ("is_whitespace", "is_alphabetic", "is_alphanumeric", "is_uppercase", "is_lowercase", "is_ascii_digit"):
        ch = chr(v[1])
        r = {"is_whitespace": ch.isspace, "is_alphabetic": ch.isalpha, "is_alphanumeric": ch.isalnum, "is_uppercase": ch.isupper, "is_lowercase": ch.islower, "is_ascii_digit": lambda: ch in "0123456789"}[n]()
        return [(st, ("i", int(r)))]
    return [(st, ("x", "chartest", n, v))]


@A("re:(core|std|alloc)::str::<impl str>::matches")
def m_matches(I, st, a, c):
    v = undisp(I.strip(st, a[0]))
    p = I.strip(st, a[1])
    if v is None or p is None or p[0] not in ("i", "s"):
        return None
    return [(st, ("t", ("matches", v, p), c.dty))]


@A("re:regex::Regex::is_match")
def m_ismatch(I, st, a, c):
    return [(st, ("x", "ismatch", I.strip(st, a[0]), undisp(I.strip(st, a[1]))))]


@A("re:(core|std|alloc)::slice::<impl \\[T\\]>::contains")
def m_slicecontains(I, st, a, c):
    xs, y = I.strip(st, a[0]), undisp(I.strip(st, a[1]))
    if xs is None or y is None:
        return None
    if xs[0] == "l":
        r = [I.binop(st, "Eq", undisp(I.strip(st, x)), y) for x in xs[1]]
        if all(x[0] == "i" for x in r):
            return [(st, ("i", int(any(x[1] for x in r))))]
    return [(st, ("x", "contains", xs, y))]


@A("re:(core|std|alloc)::slice::<impl \\[T\\]>::(join|concat)", "re:.*<impl \\[.*\\]>::(join|concat)", "re:<.*\\[.*\\]>::(join|concat)")
def m_join(I, st, a, c):
    xs = I.strip(st, a[0])
    sep = I.strip(st, a[1]) if len(a) > 1 else ("s", "")
    if xs is None:
        return None
    if xs[0] == "l":
        xs = ("l", tuple(I.strip(st, x) for x in xs[1]))
        parts = [y for k, x in enumerate(xs[1]) for y in (([disp(I, st, sep)] if k and sep is not None else []) + [disp(I, st, x)])]
        if c.dty and c.dty[0] == "adt" and c.dty[1] == "alloc::string::String" and all(plain(x) for x in parts):
            return [(st, fmt_join(parts))]
    return [(st, ("t", ("join", xs, sep), c.dty))]


def plain(x):
    """is this a text built from known texts?"""
    return x is not None and (x[0] == "s" or x[0] == "x" and (x[1] == "disp" and plain(x[2]) or x[1] == "fmt" and all(plain(y) for y in x[2])))


def build():
    return STD.copy()
