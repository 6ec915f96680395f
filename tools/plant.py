"""Helper for planting bugs: plant(id, property, needs, breaks, edits, main) writes /verif/seeded/<id>/.

edits are (file, old, new) with `old` occurring exactly once in /repo's file (or a fourth item: the occurrence index)."""
import json
import os
import shutil
import subprocess
import tempfile

SEED = "/verif/seeded"

DEMO = r'''#!/bin/bash
# run in the root of the repository: exit 0 iff main.rs builds and its assertions hold
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 9
trap 'find "$d" -depth -delete' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nmpstthree = { path = "%s", features = [@FEATS@] }\nmpst-seq-proc = { path = "%s/mpst_seq_proc" }\ncrossbeam-channel = "*"\nrand = "*"\neither = "*"\n' "$repo" "$repo" > "$d/Cargo.toml"
cd "$d" || exit 9
CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0 cargo build --offline -q > "$d/log" 2>&1 || { tail -n 40 "$d/log"; exit 3; }
timeout -k 5 @SECS@ "$d/target/debug/demo"
'''


def plant(id, prop, needs, breaks, edits, main, feats=("baking",), secs=60, demo=None, extra=None):
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    try:
        for e in edits:
            f, old, new = e[:3]
            for side in "ab":
                p = os.path.join(tmp, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if not os.path.exists(p):
                    shutil.copy(os.path.join("/repo", f), p)
            p = os.path.join(tmp, "b", f)
            s = open(p).read()
            n = s.count(old)
            if len(e) > 3:
                parts = s.split(old)
                assert len(parts) > e[3] + 1, (id, f, n)
                s = old.join(parts[:e[3] + 1]) + new + old.join(parts[e[3] + 1:])
            else:
                assert n == 1, (id, f, "occurs %d times" % n)
                s = s.replace(old, new)
            open(p, "w").write(s)
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=tmp, stdout=subprocess.PIPE, text=True)
        out = r.stdout
        # paths a/x b/x are right for git apply
        open(os.path.join(d, "patch.diff"), "w").write(out)
        c = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")], stderr=subprocess.PIPE, text=True)
        assert c.returncode == 0, c.stderr
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, "meta.json"), "w").write(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    if main is not None:
        open(os.path.join(d, "main.rs"), "w").write(main)
    open(os.path.join(d, "demo.sh"), "w").write((demo or DEMO).replace("@FEATS@", ", ".join('"%s"' % f for f in feats)).replace("@SECS@", str(secs)))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for k, v in (extra or {}).items():
        open(os.path.join(d, k), "w").write(v)
