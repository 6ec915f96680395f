"""Compile-fail witnesses: programs the compiler must reject, each with a twin it must accept.

A case file under /verif/cfail/<group>/ holds the offending fragment and its replacement between
markers; both programs are type-checked against the current /repo, nothing is run."""
import json
import os
import re
import shutil

import build as _b


def cases(verif, group):
    d = os.path.join(verif, "cfail", group)
    out = []
    for f in sorted(os.listdir(d)):
        if not f.endswith(".rs") or f.startswith("_"):
            continue
        s = open(os.path.join(d, f)).read()
        inc = re.search(r"^// include: (\S+)", s, re.M)
        if inc:
            s = s.replace(inc.group(0), open(os.path.join(d, inc.group(1))).read(), 1)
        codes = re.search(r"^// expect: (.*)$", s, re.M).group(1).split()
        bad = re.sub(r"/\*BAD\*/(.*?)/\*GOOD\*/(.*?)/\*END\*/", r"\1", s, flags=re.S)
        good = re.sub(r"/\*BAD\*/(.*?)/\*GOOD\*/(.*?)/\*END\*/", r"\2", s, flags=re.S)
        out.append((f[:-3], codes, bad, good))
    return out


def project(B, group):
    """an empty crate that sees the library as it is now"""
    cwd = os.path.join(B.dir, "cf_" + group)
    shutil.rmtree(os.path.join(cwd, "src"), ignore_errors=True)
    os.makedirs(os.path.join(cwd, "src", "bin"))
    feats = ", ".join('"%s"' % f for f in B.features() if f != "default")
    _b.write(
        os.path.join(cwd, "Cargo.toml"),
        '[package]\nname = "cf_%s"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\nmpstthree = { path = "%s", features = [%s] }\nmpst-seq-proc = { path = "%s/mpst_seq_proc" }\ncrossbeam-channel = "*"\nrand = "*"\neither = "*"\n'
        % (group, _b.REPO, feats, _b.REPO),
    )
    if not os.path.exists(os.path.join(cwd, "Cargo.lock")):
        shutil.copy(os.path.join(_b.REPO, "Cargo.lock"), os.path.join(cwd, "Cargo.lock"))
    return cwd


def check(B, cwd):
    """type-check all programs of a project -> (diagnostics, targets that passed, raw result)"""
    e = B.env(os.path.join(B.dir, "out"), [""])
    e["VERIF_CRATES"] = ""
    e["CARGO_TARGET_DIR"] = os.path.join(B.dir, "target")
    r = _b.sh(["cargo", "check", "--bins", "--offline", "--keep-going", "--message-format=json"], env=e, cwd=cwd)
    got, done = {}, set()
    for line in r.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            c = m["message"].get("code")
            msg = m["message"]["message"]
            if c is None and re.match(r"aborting due|could not compile", msg):
                continue
            lines = {s["line_start"] for s in all_spans(m["message"]["spans"]) if s["file_name"].startswith("src/")}
            got.setdefault(m["target"]["name"], []).append((c["code"] if c else "none", msg, lines))
        if m.get("reason") == "compiler-artifact":
            done.add(m["target"]["name"])
    return got, done, r


def all_spans(spans):
    for s in spans:
        if s["is_primary"]:
            while s:
                yield s
                s = (s.get("expansion") or {}).get("span")


def judge(R, B, group):
    cs = cases(B.verif, group)
    cwd = project(B, group)
    for name, codes, bad, good in cs:
        for suf, text in (("bad", bad), ("good", good)):
            with open(os.path.join(cwd, "src", "bin", "%s_%s.rs" % (name, suf)), "w") as fh:
                fh.write("#![allow(warnings)]\n" + text)
    got, done, r = check(B, cwd)
    for name, codes, bad, good in cs:
        R.count("witnesses")
        g, b = name + "_good", name + "_bad"
        R.check(g in done and not got.get(g), "witness:%s:twin" % name, "the well-behaved twin of witness %s does not type-check: %s" % (name, got.get(g, r.stdout[-300:] if not done else "no result")))
        if not R.check(b not in done and bool(got.get(b)), "witness:%s" % name, "the program %s, which breaks the rule, is accepted by the compiler" % name):
            continue
        seen = {x[0] for x in got[b]}
        R.check(seen <= set(codes), "witness:%s:reason" % name, "witness %s is rejected for another reason than %s: %s" % (name, codes, [x[:2] for x in got[b][:3]]))
        R.sample("%s: rejected with %s" % (name, sorted(seen)))


def judge_lines(R, B, group, head, mods, cs):
    """many small programs in a few crates, one per line: cs = [([module] or [], ...)]"""
    cwd = project(B, group)
    text, at = {}, {}
    for suf, k in (("bad", 2), ("good", 3)):
        for cls in sorted({c[4] for c in cs}):
            n = "%s_%s" % (suf, cls.split()[0].lower())
            lines = head.split("\n")
            for m in [None] + list(mods):
                if m is not None:
                    lines.append("pub mod %s { %s" % (m, mods[m]))
                for c in cs:
                    if c[4] == cls and (c[1][0] if c[1] else None) == m:
                        at[(n, len(lines) + 1)] = c
                        lines.append("pub mod c%d { use crate::pre::*; use super::*; %s }" % (len(lines), c[k]))
                if m is not None:
                    lines.append("}")
            lines.append("fn main() {}")
            text[n] = lines
            with open(os.path.join(cwd, "src", "bin", n + ".rs"), "w") as fh:
                fh.write("\n".join(lines) + "\n")
    got, done, r = check(B, cwd)
    seen = {}
    for n in text:
        if n not in done and n not in got:
            R.check(False, "witness:%s:unchecked" % n, "the compiler gave no answer for the witnesses of %s: %s" % (n, r.stderr[-400:]))
            return
        for code, msg, lines in got.get(n, []):
            hit = [x for x in lines if (n, x) in at]
            if not hit:
                R.check(False, "witness:%s:elsewhere" % n, "an error outside the witnesses (%s, lines %s): %s %s" % (n, sorted(lines), code, msg))
            for x in hit:
                seen.setdefault((n, x), []).append((code, msg))
    for (n, x), c in sorted(at.items()):
        errs = seen.get((n, x), [])
        name = c[0]
        if n.startswith("good"):
            R.check(not errs, "witness:%s:twin" % name, "the well-behaved twin of witness %s does not type-check: %s; %s" % (name, errs[:2], c[3]))
            continue
        R.count("witnesses")
        if not R.check(bool(errs), "witness:%s" % name, "this program, which departs from its protocol, is accepted by the compiler: %s" % c[2]):
            continue
        codes = {e[0] for e in errs}
        R.check(codes <= set(c[4].split()), "witness:%s:reason" % name, "witness %s is rejected for another reason than %s: %s" % (name, c[4], errs[:2]))
        R.count("rejected: %s" % name.split(":")[0])
