"""B06: forked participants run once each, and their failures reach the joiner."""
from mesh import *
import M01

NEEDS = ["mesh"]
RULE = (
    "every fork function: a successful path starts exactly one thread per closure argument and returns these threads' join handles in the order of the closures; on every path of a thread body exactly one closure is called, once, "
    "each thread its own closure; the body panics when the closure returns Err and returns when it returns Ok; no panic is caught"
)
EXPLAIN = "Path enumeration of every fork function and of the bodies of the threads it starts (library, TCP, UDP, expansions of the generators), with the fate of the closure's result on each path."
FLOORS = {"forks": 30, "threads": 80}


def handles(v, out):
    """thread tokens in a returned value, in order"""
    if istok(v, "fld") and istok(v[1][1], "thread"):
        out.append(v[1][1])
        return out
    if istok(v, "thread"):
        out.append(v)
        return out
    if v is not None and v[0] == "a":
        for x in v[3]:
            handles(x, out)
    return out


def run(R, B):
    F = B.facts("mesh")
    fams = families(F, specs_of(B, "mesh", R.tier))
    for k in ("binary::fork::fork", "binary::fork::fork_with_thread_id", "binary_atmp::fork::fork", "binary_atmp::fork::fork_with_thread_id", "functionmpst::fork::fork_mpst", "functionmpst::fork::fork_simple", "transport::tcp::fork::fork_tcp", "transport::udp::fork::fork_udp"):
        k = "mpstthree::" + k
        R.check(k in F.fns and "body" in F.fns[k], "anchor:" + short(k), "public function %s is gone" % k)
    for key, f in M01.forks(F, fams):
        if key.endswith(("fork_mpst_solo", "::fork_solo")):
            continue
        judge(R, F, fams, key, f)


def judge(R, F, fams, key, f):
    tag = short(key)
    cl = [i for i, t in enumerate(f["inputs"]) if t and t[0] == "param"]
    R.count("forks")
    ps, I = R.paths_of(F, key, mods=TIMED)
    if ps is None:
        return
    n = 0
    for p in ps:
        R.check(p.kind != "cut", tag + ":loop", "%s may loop" % tag, p)
        R.check(not p.ev("catch_unwind"), tag + ":catch", "%s catches panics" % tag, p)
        R.check(not [e for e in p.ev("invoke") if istok(e[1], "arg") and e[1][1][1] in cl], tag + ":inline", "%s runs a participant on the caller's thread" % tag, p)
        subs = spawned(R, I, p, tag)
        who = []
        for e, sub in subs:
            R.count("threads")
            mine = set()
            R.check(any(q.kind == "return" for q in sub), tag + ":never", "a thread started by %s can never end normally" % tag, p)
            for q in sub:
                if not R.check(q.kind != "cut", tag + ":thread-loop", "a thread started by %s may loop" % tag, q):
                    continue
                R.check(not q.ev("catch_unwind"), tag + ":thread-catch", "a thread started by %s catches panics" % tag, q)
                R.check(not q.ev("spawn"), tag + ":nested", "a thread started by %s starts another thread" % tag, q)
                iv = [x for x in q.ev("invoke") if istok(x[1], "arg")]
                if not R.check(len(iv) == 1, tag + ":runs", "a thread started by %s calls %d participant closures on a path" % (tag, len(iv)), q):
                    continue
                x = iv[0]
                mine.add(x[1][1][1])
                rt = q.tags.get(x[3])
                if q.kind == "return":
                    R.check(rt == 0, tag + ":swallowed", "a thread started by %s ends normally although its participant %s" % (tag, "failed" if rt == 1 else "may have failed (its result is not looked at)"), q)
                else:
                    R.check(rt == 1 and q.kind == "panic", tag + ":spurious", "a thread started by %s ends with %s although its participant %s" % (tag, q.kind, "succeeded" if rt == 0 else "gave no verdict"), q)
            R.check(len(mine) == 1, tag + ":which", "a thread started by %s runs closures %s" % (tag, sorted(mine)), p)
            who.append((e[2], min(mine) if mine else None))
        ids_ = [w for _, w in who]
        R.check(len(set(ids_)) == len(ids_), tag + ":twice", "%s starts closures %s" % (tag, ids_), p)
        if p.kind != "return" or failed(p):
            continue
        n += 1
        R.check(sorted(x for x in ids_ if x is not None) == cl, tag + ":threads", "%s starts threads for closures %s of %s" % (tag, ids_, cl), p)
        hs = handles(p.value, [])
        if "JoinHandle" not in repr(f.get("output", f["body"]["locals"][0][0])) and not hs:
            continue  # the caller is not given a handle at all: it sees a failure as the loss of its peer
        order = dict(who)
        R.check([order.get(h) for h in hs] == cl, tag + ":handles", "%s returns the handles of closures %s, expected %s" % (tag, [order.get(h) for h in hs], cl), p)
    R.check(n > 0, tag + ":succeeds", "%s never succeeds" % tag)
    R.sample("%s: closures %s" % (tag, cl))
