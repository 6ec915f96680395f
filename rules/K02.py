"""K02: the checker reports a bound k only if the external tool accepted that k."""
from core import *

NEEDS = ["lib"]
LIMIT = 50
RULE = (
    "on every path of the checker with a file name, the runs of the external tool are numbered 1, 2, ... in order, each on the automata file written before the first run; a run follows another one only if the answer of the latter contained 'False'; "
    "Some(k) is returned exactly when run k was the last one and its answer did not contain 'False', None exactly when runs 1..%d all did, and a run that cannot be started (or whose answer cannot be read) ends in an error; without a file name the tool is not run and no bound is returned" % LIMIT
)
EXPLAIN = "Path analysis of checker() with everything it calls up to the process boundary (Command builder arguments, test of the captured output); the loop over k is unfolded completely, states being merged at joins when they agree on the history of answers, on all integers and flags."
FLOORS = {"paths with a run": 50, "accepted bounds": 50, "rejected everything": 1, "no file name": 1}
KEY = "mpstthree::checking::checker"


def reaches(F, prefix, goal):
    """functions of a module from which a call of `goal` can be reached"""
    g = {}

    def refs(x, out):
        if isinstance(x, (tuple, list)):
            if len(x) > 1 and x[0] in ("fn", "closure") and isinstance(x[1], str):
                out.add(x[1])
                if len(x) > 2 and isinstance(x[2], str):
                    out.add(x[2])
            for y in x:
                refs(y, out)

    for k, f in F.fns.items():
        if k.startswith(prefix) and "body" in f:
            o = set()
            refs(f["body"]["blocks"], o)
            g[k] = o
    hit = {k for k, o in g.items() if any(re.search(goal, x) for x in o)}
    while True:
        more = {k for k, o in g.items() if k not in hit and o & hit}
        if not more:
            return hit, g
        hit |= more


def text(v):
    """a format value with concrete parts as one string; None for unknown parts"""
    if v is None:
        return None
    if v[0] == "s":
        return v[1]
    if v[0] == "i":
        return str(v[1])
    if v[0] == "x" and v[1] in ("disp", "fmt_debug"):
        return text(v[2])
    if v[0] == "x" and v[1] == "fmt":
        parts = [text(x) for x in v[2]] if isinstance(v[2], tuple) and (not v[2] or isinstance(v[2][0], tuple)) else [text(x) for x in v[2:]]
        return None if None in parts else "".join(parts)
    return None


def from_tool(v, res):
    """v was computed from the output of the run with result `res`"""
    if not isinstance(v, tuple) or not v:
        return False
    return v == res or any(from_tool(x, res) for x in v)


def runs(st, events):
    """[(number, file argument, result, verdict)]; verdict: True accepted, False refused, 'err', None undecided"""
    out = []
    tools = [i for i, e in enumerate(events) if e[0] == "tool"]
    for n, i in enumerate(tools):
        e = events[i]
        end = tools[n + 1] if n + 1 < len(tools) else len(events)
        res = e[3]
        verdict = None
        if st.tags.get(res) == 1:
            verdict = "err"
        for x in events[i + 1:end]:
            if x[0] == "strtest" and x[1] == "contains" and x[3] == ("s", "False") and from_tool(x[2], res):
                v = st.conds.get(x[4])
                if v is not None:
                    verdict = not v
        out.append((e[2], res, verdict))
    return out


def number(args):
    nums = [int(t) for t in (text(a) for a in (args or ())[1:]) if t is not None and re.match(r"\d+$", t)]
    return nums[0] if len(nums) == 1 else None


def run(R, B):
    F = B.facts("lib")
    if not R.check(KEY in F.fns and "body" in F.fns[KEY], "anchor:checker", "public function %s is gone" % KEY):
        return
    hit, g = reaches(F, "mpstthree::checking", r"^std::process::Command::(output|status|spawn)")
    R.check(KEY in hit, "anchor:tool", "the checker no longer starts an external program")
    quiet = [k for k in g if k not in hit and "{closure" not in k]
    names = {e for e in quiet}

    def empty(st):
        return next((v for t, v in st.conds.items() if "is_empty" in repr(t) or "('arg', 0)" in repr(t)), None)

    def history(st):
        ev = st.events()
        h = tuple((number(a), v) for a, _, v in runs(st, ev))
        if any(v is not False or n != i + 1 for i, (n, v) in enumerate(h[:-1])):
            return ("bad", empty(st))  # refused already; one continuation is enough
        return (empty(st), h)

    def rest(st, vals):
        def ab(v):
            if v is None or not isinstance(v, tuple) or not v:
                return "?"
            if v[0] == "i":
                return v[1]
            if v[0] == "a":
                return (v[2],) + tuple(ab(x) for x in v[3])
            if v[0] == "r":
                w = st.mem.get(v[1])
                return ab(w) if w is not None and w[0] != "r" else "?"
            if v[0] == "t":
                return st.tags.get(v, "?")
            return "?"
        return repr([ab(v) for v in vals])

    ps, I = R.paths_of(F, KEY, opaque=tuple(names), merge=(history, rest), max_paths=60000)
    for p in ps or ():
        if p.kind == "cut":
            continue
        rs = runs(p.st, p.events)
        e = empty(p.st)
        if not failed(p) and not rs:
            R.count("no file name")
        if rs:
            R.count("paths with a run")
            R.check(e == 0, "unasked", "the external tool is run without a file name", p)
        made = [x for x in p.events if x[0] == "call" and re.search(r"fs::(File::create|write|OpenOptions)", x[1])]
        for i, (args, res, v) in enumerate(rs):
            if not R.check(number(args) == i + 1, "order", "run %d of the tool asks about %s" % (i + 1, number(args)), p):
                break
            if i + 1 < len(rs):
                R.check(v is False, "goes-on", "the tool is asked about %d although its answer about %d was %s" % (i + 2, i + 1, {True: "positive", None: "not looked at"}.get(v, v)), p)
            files = [a for a in (args or ())[1:] if a is not None and "('arg', 0)" in repr(a)]
            before = made[0] if made and p.events.index(made[0]) < [p.events.index(x) for x in p.ev("tool")][0] else None
            R.check(len(files) == 1 and before is not None and before[2][0] == files[0], "file", "run %d is on %s, the file written is %s" % (i + 1, [sh(x) for x in files], sh(before[2][0]) if before else None), p)
        if rs and rs[-1][2] == "err":
            R.check(failed(p), "tool-lost", "the checker succeeds although the tool could not be run", p)
        if failed(p):
            continue
        if not R.check(p.kind == "return" and is_ok(p.value) and p.value[3][0] is not None and p.value[3][0][0] == "a" and len(p.value[3][0][3]) == 2, "result", "the checker returns %s" % sh(p.value)[:120], p):
            continue
        b = p.value[3][0][3][1]
        some = b is not None and b[0] == "a" and b[1][0] == "adt" and b[2] == 1
        none = b is not None and b[0] == "a" and b[1][0] == "adt" and b[2] == 0
        if not rs:
            R.check(none and e == 1, "skipped", "the checker returns %s without having run the tool%s" % (sh(b), "" if e == 1 else " on a named file"), p)
            continue
        last = rs[-1][2]
        if last is True:
            R.count("accepted bounds")
            R.check(some and b[3][0] == ("i", len(rs)), "bound", "the tool accepted %d and the checker returns %s" % (len(rs), sh(b)), p)
        else:
            if last is False:
                R.count("rejected everything")
            R.check(none and last is False and len(rs) == LIMIT, "none", "the checker returns %s after %d answers, the last one %s" % (sh(b), len(rs), {False: "negative", None: "not looked at"}.get(last, last)), p)
    R.sample("runs per path: up to %d" % max([len(runs(p.st, p.events)) for p in ps or ()] or [0]))
