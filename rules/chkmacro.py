"""What the macros of the bottom-up checker hand to it (used by K01): the expansions of checker_concat! and
checker_concat_impl! in the witness crate, evaluated on the types and names they were given."""
import re

import texts
from core import MODELS
from genwitness import chk_specs
from interp import UNIT

CHECKER = "mpstthree::checking::checker"
UNITOK = ("a", ("adt", "core::result::Result", ()), 0, (UNIT,))


def named(t):
    """the text type_name gives for a type (up to the spelling of paths, which is the same on both sides)"""
    if t[0] == "adt":
        return t[1] + ("<%s>" % ", ".join(named(x) for x in t[2]) if t[2] else "")
    if t[0] == "ref":
        return "&" + named([x for x in t[1:] if isinstance(x, tuple)][0])
    if t[0] == "prim":
        return t[1]
    return re.sub(r"\s+", "", repr(t))


def models(F):
    mods = MODELS.copy()
    texts.install(mods)

    def type_name(I, st, a, c):
        return [(st, ("s", named(F.norm(c.targs[0]))))] if c.targs else None

    def checker(I, st, a, c):
        st.event("checked", tuple(a))
        return [(st, ("t", ("checked", st.fresh()), c.dty))]

    def to_string(I, st, a, c):
        v = I.strip(st, a[0])
        if v is None or v[0] != "a" or v[1][0] != "adt" or not v[1][1].startswith("w_chk::"):
            return None
        im = F.find_impl("std::fmt::Display", v[1], "fmt")
        if im is None:
            return None
        cell = ("H", st.fresh())
        st.mem[cell] = ("s", "")
        arg = ("H", st.fresh())
        st.mem[arg] = v
        outs = []
        for s2, r in I.exec_fn(st, im[0], im[1], [("r", arg, ()), ("r", cell, ())]):
            outs.append((s2, s2.mem[cell]))
        return outs

    def written(I, st, a, c):
        cell, path = I.deref_loc(st, a[0])
        x, y = texts.known(I.load(st, cell, path)), I.strip(st, a[1])
        y = chr(y[1]) if y is not None and y[0] == "i" else texts.known(y)
        if x is None or y is None:
            return None
        I.store(st, cell, path, ("s", x + y))
        return [(st, UNITOK)]

    for rx, m in (
        (r"(core|std)::any::type_name(::<.*>)?\Z", type_name),
        (r"(core|std)::any::type_name_of_val(::<.*>)?\Z", type_name),
        (re.escape(CHECKER) + r"\Z", checker),
        (r"(std|alloc)::string::ToString::to_string\Z", to_string),
        (r"<.*> as (std|alloc)::string::ToString>::to_string\Z", to_string),
        (r"(core|std)::fmt::Formatter::<.*>::(write_fmt|write_str|pad)\Z", written),
        (r"(core|std)::fmt::Formatter::(write_fmt|write_str|pad)\Z", written),
        (r"(core|std)::fmt::Write::write_(fmt|str|char)\Z", written),
        (r"<(core|std)::fmt::Formatter<?.* as (core|std)::fmt::Write>::write_(fmt|str|char)\Z", written),
    ):
        texts.first(mods, rx, m)
    return mods


def entries(st, m):
    """the final contents of a map, or None"""
    if m is None or m[0] != "t":
        return None
    return {texts.known(k[2]): v for k, v in st.mem.items() if isinstance(k, tuple) and k and k[0] == "M" and k[1] == m}


def run(R, F):
    plain = lambda s: "".join(s.split()).replace("&", "") if s is not None else None
    text = lambda I, st, v: plain(texts.known(I.strip(st, v)))
    for mod, (starts, groups) in chk_specs().items():
        key = "w_chk::%s::check" % mod
        if not R.check(key in F.fns, "anchor:checker_concat:%s" % mod, "the expansion of checker_concat! is gone"):
            continue
        ty = lambda a: plain(named(F.norm(F.fns["w_chk::ty_%s" % a.lower()]["inputs"][0])))
        ps, I = R.paths_of(F, key, mods=models(F))
        for p in ps or ():
            R.count("checker calls")
            if not R.check(p.kind == "return" and len(p.ev("checked")) == 1 and p.value[0] == "t" and p.value[1][0] == "checked", "checker_concat:%s:call" % mod, "checker_concat! does not end with the answer of the checker: %s %s" % (p.kind, str(p.value)[:200]), p):
                continue
            args = p.ev("checked")[0][1]
            st = p.st
            fname, given, recv, brs, grp = (I.strip(st, x) for x in args)
            R.check(texts.known(fname) == "file_%s" % mod, "checker_concat:file", "the checker is given the file name %s" % str(fname)[:100], p)
            got = sorted(text(I, st, x) or "?" for x in given[1]) if given is not None and given[0] == "l" else None
            R.check(got == sorted(ty(a) for a in starts), "checker_concat:types", "the types to check are %s in the checker's input" % got, p)
            want = {"%s::%s" % x: ty(t) for t, g in groups for x in g}
            got = {k: text(I, st, v) for k, v in (entries(st, brs) or {}).items()}
            R.check(got == want, "checker_concat:branches", "the type the chooser adopts in each branch is given as %s" % got, p)
            R.count("branches handed over", len(want))
            num = {k: I.strip(st, v) for k, v in (entries(st, grp) or {}).items()}
            R.check(set(num) == set(want) and all(v is not None and v[0] == "i" for v in num.values()), "checker_concat:groups", "the branches are numbered %s" % num, p)
            for t, g in groups:
                ns = {num.get("%s::%s" % x) for x in g}
                other = {num.get("%s::%s" % x) for t2, g2 in groups if g2 is not g for x in g2}
                R.check(len(ns) == 1 and not ns & other, "checker_concat:group-numbers", "the branches taken together are numbered %s, the others %s" % (ns, other), p)
            enums = {e for _, g in groups for e, _ in g}
            got = entries(st, recv) or {}
            R.check(set(got) == enums, "checker_concat:choices", "the choices known to the checker are %s" % sorted(map(str, got)), p)
            for e in sorted(enums):
                a = F.adts["w_chk::%s::%s" % (mod, e)]
                used = {v for _, g in groups for e2, v in g if e2 == e}
                want = {v[0]: plain(named(F.norm(v[2][0][2]))) for v in a["variants"] if v[0] in used}
                have = {k: text(I, st, v) for k, v in (entries(st, I.strip(st, got[e])) or {}).items()} if e in got else None
                if have is not None and None in list(have) + list(have.values()):
                    R.count("descriptions not decided")
                    continue
                R.check(have == want, "checker_concat:receivers", "the branches of %s are described as %s, expected %s" % (e, have, want), p)
                R.count("branches described", len(want))
