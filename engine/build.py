"""Builds the fact extractor and dumps the facts of the current /repo tree."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


def sh(cmd, env=None, cwd=None, timeout=850):
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    if env:
        e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tree_hash():
    """hash of the analysed sources (only to name build directories)"""
    h = hashlib.sha256()
    for base in ("src", "mpst_seq_proc", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, base)
        files = []
        if os.path.isfile(p):
            files = [p]
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x != "target")
            files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


class Build:
    def __init__(self, verif, need, tier):
        self.verif = verif
        self.need = need
        self.tier = tier
        self.dir = os.environ.get("VERIF_BUILD") or os.path.join(verif, ".build")
        self.ok = True
        self.out = None
        self.paths = {}

    def run(self, R):
        os.makedirs(self.dir, exist_ok=True)
        with open(os.path.join(self.dir, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            self.driver()
            for n in self.need:
                self.dump(n, R)

    def driver(self):
        src = os.path.join(self.verif, "driver")
        tgt = os.path.join(self.dir, "driver")
        r = sh(["cargo", "+nightly", "build", "--offline", "--quiet"], env={"CARGO_TARGET_DIR": tgt}, cwd=src)
        self.bin = os.path.join(tgt, "debug", "mirdump")
        if r.returncode != 0 or not os.path.exists(self.bin):
            raise RuntimeError("the fact extractor does not build: " + r.stdout[-2000:])
        s = sh(["rustc", "+nightly", "--print", "sysroot"])
        self.sysroot = s.stdout.strip().splitlines()[-1]

    def env(self, out, crates):
        return {
            "LD_LIBRARY_PATH": os.path.join(self.sysroot, "lib"),
            "RUSTC_WRAPPER": self.bin,
            "VERIF_CRATES": ",".join(crates),
            "VERIF_OUT": out,
            "VERIF_EXTERN": "1",
            "RUSTUP_TOOLCHAIN": "nightly",
        }

    def features(self):
        """all features of the library, read from its manifest"""
        t = open(os.path.join(REPO, "Cargo.toml")).read()
        m = re.search(r"^\[features\]\n(.*?)(?=^\[|\Z)", t, re.M | re.S)
        return [x for x in re.findall(r"^([A-Za-z0-9_]+)\s*=", m.group(1), re.M)] if m else []

    def dump(self, name, R):
        h = tree_hash()
        out = os.path.join(self.dir, "out", name)
        tgt = os.path.join(self.dir, "target")
        stamp = os.path.join(out, "stamp")
        key = h
        if name != "lib":
            import genwitness
            files = genwitness.generate(name, self.tier)
            key += hashlib.sha256(json.dumps(sorted(files.items())).encode()).hexdigest()[:16]
        key += hashlib.sha256(open(os.path.join(self.verif, "driver/src/main.rs"), "rb").read()).hexdigest()[:16]
        self.paths[name] = out
        self.files = getattr(self, "files", {})
        if name != "lib":
            self.files[name] = files
        if os.path.exists(stamp) and open(stamp).read() == key:
            return
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        crates = ["mpstthree"]
        if name == "lib":
            cwd = REPO
            cmd = ["cargo", "check", "--lib", "--all-features", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
            if not self.keep_lock():
                pass
        else:
            cwd = os.path.join(self.dir, "w_" + name)
            os.makedirs(os.path.join(cwd, "src"), exist_ok=True)
            feats = ", ".join('"%s"' % f for f in self.features() if f != "default")
            write(os.path.join(cwd, "Cargo.toml"), '[package]\nname = "w_%s"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[lib]\npath = "src/lib.rs"\n\n[dependencies]\nmpstthree = { path = "%s", features = [%s] }\nmpst-seq-proc = { path = "%s/mpst_seq_proc" }\ncrossbeam-channel = "*"\nrand = "*"\neither = "*"\npetgraph = "*"\n' % (name, REPO, feats, REPO))
            lock = os.path.join(REPO, "Cargo.lock")
            if os.path.exists(lock) and not os.path.exists(os.path.join(cwd, "Cargo.lock")):
                shutil.copy(lock, os.path.join(cwd, "Cargo.lock"))
            for f in os.listdir(os.path.join(cwd, "src")):
                if f not in files:
                    os.remove(os.path.join(cwd, "src", f))
            for f, s in files.items():
                write(os.path.join(cwd, "src", f), s)
            crates.append("w_" + name)
            cmd = ["cargo", "check", "--lib", "--offline"]
        # cargo's freshness cache would skip the extractor: forget the analysed crates
        names = ("mpstthree", "w_" + name)
        for base in ("debug/.fingerprint", "debug/build"):
            d0 = os.path.join(tgt, base)
            for d in os.listdir(d0) if os.path.isdir(d0) else []:
                if d in names or (base.endswith("fingerprint") and d.startswith(tuple(n + "-" for n in names))):
                    shutil.rmtree(os.path.join(d0, d), ignore_errors=True)
        e = self.env(out, crates)
        e["CARGO_TARGET_DIR"] = tgt
        r = sh(cmd, env=e, cwd=cwd)
        with open(os.path.join(out, "log"), "w") as fh:
            fh.write(r.stdout)
        if r.returncode != 0:
            errs = re.findall(r"^error.*(?:\n +-->.*)?", r.stdout, re.M)
            self.ok = False
            R.check(
                False,
                "expansion:%s" % name,
                "the %s does not type-check: %s"
                % ("library" if name == "lib" else "expansion of the public macros (witness crate %s)" % name, " | ".join(errs[:4])),
            )
            return
        want = ["mpstthree"] + (["w_" + name] if name != "lib" else [])
        for c in want:
            if not os.path.exists(os.path.join(out, c + ".json")):
                raise RuntimeError("no facts for crate %s (cargo skipped the extractor)" % c)
        write(stamp, key)

    def keep_lock(self):
        return True

    def facts(self, name):
        import core
        out = self.paths[name]
        ps = [os.path.join(out, "mpstthree.json")]
        w = os.path.join(out, "w_" + name + ".json")
        if os.path.exists(w):
            ps.append(w)
        return core.facts(ps)


def write(p, s):
    if os.path.exists(p) and open(p).read() == s:
        return
    with open(p, "w") as fh:
        fh.write(s)
