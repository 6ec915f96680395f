"""Loads the JSON facts written by the driver and answers type questions."""
import json


class Facts:
    def __init__(self, paths):
        self.fns = {}
        self.impls = {}
        self.adts = {}
        self.traits = {}
        self.unsafe = []
        self.crates = []
        self._norm = {}
        for p in paths:
            self._load(p)
        self._by_trait = {}
        for k, i in self.impls.items():
            if "trait" in i:
                self._by_trait.setdefault(i["trait"], []).append((k, i))
        self.by_nice = {}
        for k, f in self.fns.items():
            self.by_nice.setdefault(f["nice"], []).append(k)

    def _load(self, p):
        with open(p) as fh:
            d = json.load(fh)
        self.crates.append(d["crate"])
        raw = d["types"]
        types = [None] * len(raw)

        def arg(x):
            return ty(x) if isinstance(x, int) else tuple(x)

        def ty(i):
            if types[i] is not None:
                return types[i]
            t = raw[i]
            k = t[0]
            if k == "adt":
                r = ("adt", t[1], tuple(arg(x) for x in t[2]))
            elif k in ("ref", "ptr"):
                r = (k, t[1], ty(t[2]))
            elif k == "tuple":
                r = ("tuple", tuple(ty(x) for x in t[1]))
            elif k == "array":
                r = ("array", ty(t[1]), arg(t[2]))
            elif k == "slice":
                r = ("slice", ty(t[1]))
            elif k in ("closure", "fndef", "alias"):
                r = (k, t[1], tuple(arg(x) for x in t[2]))
            else:
                r = (k, t[1])
            types[i] = r
            return r

        for i in range(len(raw)):
            ty(i)
        conv_const(d, types)
        own = d["crate"]
        for k, f in d["fns"].items():
            f["key"] = k
            f["crate"] = own
            if "inputs" in f:
                f["inputs"] = [types[t] for t in f["inputs"]]
                f["output"] = types[f["output"]]
            if "upvars" in f:
                f["upvars"] = [types[t] for t in f["upvars"]]
            # a definition dumped by its own crate wins over an imported copy
            if k in self.fns and not k.startswith(own + "::"):
                continue
            self.fns[k] = f
        for k, i in d["impls"].items():
            i["key"] = k
            i["crate"] = own
            i["self"] = types[i["self"]]
            i["types"] = {n: types[t] for n, t in i["types"].items()}
            if "targs" in i:
                i["targs"] = tuple(types[t] if isinstance(t, int) else tuple(t) for t in i["targs"])
            self.impls[k] = i
        for k, a in d["adts"].items():
            for v in a["variants"]:
                for f in v[2]:
                    f[2] = types[f[2]] if f[2] is not None else None
            if k in self.adts and not a["local"]:
                continue
            a["key"] = k
            self.adts[k] = a
        for k, t in d["traits"].items():
            self.traits[k] = t
        self.unsafe += d["unsafe"]

    # ---------------------------------------------------------------- types
    def subst(self, t, env):
        if not env or t is None:
            return t
        k = t[0]
        if k in ("param", "cparam"):
            return env.get(t[1], t)
        if k in ("prim", "other", "cval", "cother"):
            return t
        if k in ("adt", "closure", "fndef"):
            return (k, t[1], tuple(self.subst(x, env) for x in t[2]))
        if k == "alias":
            return self.norm((k, t[1], tuple(self.subst(x, env) for x in t[2])))
        if k in ("ref", "ptr"):
            return (k, t[1], self.subst(t[2], env))
        if k == "tuple":
            return (k, tuple(self.subst(x, env) for x in t[1]))
        if k == "array":
            return (k, self.subst(t[1], env), self.subst(t[2], env))
        if k == "slice":
            return (k, self.subst(t[1], env))
        return t

    def norm(self, t):
        """normalises associated types as far as the impls in scope tell"""
        if t in self._norm:
            return self._norm[t]
        r = self._normalise(t)
        self._norm[t] = r
        return r

    def _normalise(self, t):
        k = t[0]
        if k == "alias":
            args = tuple(self.norm(x) if x[0] not in ("cval", "cparam", "cother") else x for x in t[2])
            t = ("alias", t[1], args)
            trait, name = t[1].rsplit("::", 1)
            for trk, tr in self.traits.items():
                if trk == trait:
                    for ik, im in self._by_trait.get(tr[0], []):
                        env = {}
                        if args and self.match(im["self"], args[0], env) and name in im["types"]:
                            return self.norm(self.subst(im["types"][name], env))
            # involution: <<X as Session>::Dual as Session>::Dual == X
            if name == "Dual" and args and args[0][0] == "alias" and args[0][1] == t[1]:
                return args[0][2][0]
            return t
        if k in ("adt", "closure", "fndef"):
            return (k, t[1], tuple(self.norm(x) if x[0] not in ("cval", "cparam", "cother") else x for x in t[2]))
        if k in ("ref", "ptr"):
            return (k, t[1], self.norm(t[2]))
        if k == "tuple":
            return (k, tuple(self.norm(x) for x in t[1]))
        if k == "array":
            return (k, self.norm(t[1]), t[2])
        if k == "slice":
            return (k, self.norm(t[1]))
        return t

    def match(self, pat, t, env):
        """one-way matching: binds pattern params in env"""
        if pat[0] in ("param", "cparam"):
            if pat[1] in env:
                return env[pat[1]] == t
            env[pat[1]] = t
            return True
        if pat[0] != t[0]:
            return False
        k = pat[0]
        if k in ("adt", "closure", "fndef", "alias"):
            return (
                pat[1] == t[1]
                and len(pat[2]) == len(t[2])
                and all(self.match(a, b, env) for a, b in zip(pat[2], t[2]))
            )
        if k in ("ref", "ptr"):
            return pat[1] == t[1] and self.match(pat[2], t[2], env)
        if k == "tuple":
            return len(pat[1]) == len(t[1]) and all(self.match(a, b, env) for a, b in zip(pat[1], t[1]))
        if k == "array":
            return self.match(pat[1], t[1], env) and self.match(pat[2], t[2], env)
        if k == "slice":
            return self.match(pat[1], t[1], env)
        return pat == t

    def find_impl(self, trait_nice, selfty, item):
        """-> (fn key, env) of the impl item for a concrete self type"""
        for ik, im in self._by_trait.get(trait_nice, []):
            env = {}
            if self.match(im["self"], selfty, env):
                for it in im["items"]:
                    if it.rsplit("::", 1)[1] == item:
                        return it, env
        return None

    def field_ty(self, t, variant, i):
        if t is None:
            return None
        if t[0] == "adt":
            a = self.adts.get(t[1])
            if a is None:
                return None
            n = t[1]
            v = a["variants"]
            if variant >= len(v) or i >= len(v[variant][2]):
                return None
            ft = v[variant][2][i][2]
            if ft is None:
                # external ADTs: the usual one-field containers
                if n == "core::option::Option":
                    return t[2][0]
                if n == "core::result::Result":
                    return t[2][variant]
                if n == "core::ops::control_flow::ControlFlow":
                    return t[2][1 - variant]
                if n == "either::Either":
                    return t[2][variant]
                if n == "crossbeam_channel::err::SendError":
                    return t[2][0]
                return None
            return self.norm(self.subst(ft, dict(zip(a["generics"], t[2]))))
        if t[0] == "tuple":
            return t[1][i] if i < len(t[1]) else None
        if t[0] == "closure":
            f = self.fns.get(t[1])
            if f and i < len(f.get("upvars", [])):
                root = f["generics"]
                return self.subst(f["upvars"][i], dict(zip(root, t[2])))
        return None

    def nfields(self, t, variant=0):
        if t is None:
            return None
        if t[0] == "adt":
            a = self.adts.get(t[1])
            if a is None or variant >= len(a["variants"]):
                return None
            return len(a["variants"][variant][2])
        if t[0] == "tuple":
            return len(t[1])
        return None


def conv_const(d, types):
    """replace type indices inside bodies by structural types"""

    def garg(x):
        return types[x] if isinstance(x, int) else tuple(x)

    def const(c):
        k = c[0]
        if k == "fn":
            res = c[5]
            if res is not None:
                if res[0] == "item":
                    res = ("item", res[1], tuple(garg(x) for x in res[2]))
                else:
                    res = tuple(res)
            return ("fn", c[1], c[2], c[3], tuple(garg(x) for x in c[4]), res)
        if k in ("int",):
            return ("int", int(c[1]), types[c[2]])
        if k == "str":
            return ("str", c[1])
        if k == "bytes":
            return ("bytes", tuple(c[1]), types[c[2]])
        if k == "zst":
            return ("zst", types[c[1]])
        if k == "promoted":
            return ("promoted", c[1], c[2], tuple(garg(x) for x in c[3]), types[c[4]])
        if k == "constitem":
            return ("constitem", c[1], tuple(garg(x) for x in c[2]), types[c[3]])
        if k == "cparam":
            return ("cparam", c[1], types[c[2]])
        if k in ("static", "alloc"):
            return (k, c[1], types[c[2]])
        return (k, types[c[1]] if len(c) > 1 else None)

    def place(p):
        return (p[0], tuple(x if isinstance(x, str) else tuple(x) for x in p[1]))

    def operand(o):
        if o[0] in ("c", "m"):
            return (o[0], place(o[1]))
        if o[0] == "k":
            return ("k", const(o[1]))
        return tuple(o)

    def rvalue(r):
        k = r[0]
        if k == "use":
            return (k, operand(r[1]))
        if k == "repeat":
            return (k, operand(r[1]), tuple(r[2]))
        if k == "ref":
            return (k, r[1], place(r[2]))
        if k == "cast":
            return (k, r[1], operand(r[2]), types[r[3]])
        if k == "bin":
            return (k, r[1], operand(r[2]), operand(r[3]))
        if k == "un":
            return (k, r[1], operand(r[2]))
        if k == "discr":
            return (k, place(r[1]))
        if k == "agg":
            a = r[1]
            if a[0] == "adt":
                a = ("adt", a[1], a[2], tuple(garg(x) for x in a[3]), a[4])
            elif a[0] == "closure":
                a = ("closure", a[1], tuple(garg(x) for x in a[2]))
            else:
                a = tuple(a)
            return (k, a, tuple(operand(o) for o in r[2]))
        return tuple(r)

    def body(b):
        b["locals"] = [(types[l[0]], l[1]) for l in b["locals"]]
        nb = []
        for blk in b["blocks"]:
            if blk is None:
                nb.append(None)
                continue
            st = []
            for s in blk[0]:
                if s[0] == "=":
                    st.append(("=", place(s[1]), rvalue(s[2])))
                else:
                    st.append(("sd", place(s[1]), s[2]))
            t = blk[1]
            k = t[0]
            if k == "switch":
                t = (k, operand(t[1]), [(int(v), b2) for v, b2 in t[2]], t[3])
            elif k == "drop":
                t = (k, place(t[1]), t[2])
            elif k == "call":
                t = (k, operand(t[1]), [operand(o) for o in t[2]], place(t[3]), t[4], tuple(t[5]))
            elif k == "tailcall":
                t = (k, operand(t[1]), [operand(o) for o in t[2]], tuple(t[3]))
            elif k == "assert":
                t = (k, operand(t[1]), t[2], t[3], t[4], tuple(t[5]))
            nb.append((st, tuple(t)))
        b["blocks"] = nb

    for f in d["fns"].values():
        if "body" in f:
            body(f["body"])
            for p in f["promoted"]:
                body(p)
