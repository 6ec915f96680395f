"""C02: the broadcaster relays a cancellation to every participant."""
from mesh import *
from C01 import variant, is_signal

NEEDS = ["aff"]
RULE = (
    "on every history of the broadcaster's loop: channels are only polled, and every session still watched is polled again before another one is polled twice; after a poll that delivered Cancel, or that found a watched session disconnected, "
    "Cancel is sent exactly once on every session currently held, nothing else is received or sent and the operation panics; a Stop is answered by one Stop on that session, which alone ends its watch; an offered session replaces the one it came on; "
    "a successful path has seen every session stop; no other sends occur"
)
EXPLAIN = "The polling loop of broadcast_cancel! (expansions for several numbers of participants) analysed to a fixpoint of its abstract state, with a monitor automaton over the channel events of every history; the state of the monitor is part of the loop state."
FLOORS = {"broadcasters": 2, "histories": 60, "cancellations relayed": 8, "stops answered": 8}
EMPTY, GONE = 0, 1


class Monitor:
    """what has happened to each session of the broadcaster"""

    def __init__(self, F, fam, ai, sig):
        self.F, self.fam, self.ai = F, fam, ai
        self.stop, self.cancel, self.offer = sig
        self.slots = list(range(1, fam.n))

    def scan(self, events, tags):
        cur = {}
        lineage = {}  # result of a receive -> slot
        arg = ("t", ("arg", self.ai), None)
        stopped, relay, pending = set(), None, None
        since = {k: None for k in self.slots}  # slots polled since the last poll of k
        bad, facts = [], []
        order = 0
        bt = {}
        for t, v in tags.items():
            if istok(t, "fld"):
                bt.setdefault(strip_ty(t), v)

        def slot_of(e):
            k = arg_slot(self.F, self.fam, arg, e)
            if k is not None:
                return k, 0
            h = chan_holder(e[1])
            # a session that was offered: ((res as Ok).0 as Offer).0
            if h is not None and istok(h, "fld") and h[1][2] == self.offer and istok(h[1][1], "fld"):
                r = h[1][1][1][1]
                if strip_ty(r) in lineage:
                    return lineage[strip_ty(r)]
            return None, None

        for e in events:
            if e[0] not in ("send", "recv"):
                continue
            k, gen = slot_of(e)
            if k is None:
                bad.append(("session", "uses %s, which is no session it holds" % sh(e[1])))
                continue
            if gen != cur.get(k, 0):
                bad.append(("stale", "uses a session of slot %d that a choice has replaced" % k))
            if e[0] == "recv":
                if pending is not None:
                    bad.append(("unanswered", "does not answer the Stop of session%d" % pending))
                    pending = None
                if relay is not None:
                    bad.append(("after", "goes on listening after a cancellation"))
                if mode_of(e) not in ("try_recv",):
                    bad.append(("blocking", "waits (%s) on session%d instead of polling" % (mode_of(e), k)))
                if since[k] is not None:
                    miss = [j for j in self.slots if j != k and j not in stopped and j not in since[k]]
                    if miss:
                        bad.append(("starved", "polls session%d again before session%d" % (k, miss[0])))
                since[k] = set()
                for j in self.slots:
                    if j != k and since[j] is not None:
                        since[j].add(k)
                res = res_of(e)
                t = tag_of_tags(tags, res)
                if t == 0:
                    sg = bt.get(strip_ty(("t", ("fld", res, 0, 0), None)))
                    if sg is None:
                        bad.append(("uninspected", "does not look at the signal of session%d" % k))
                    elif sg == self.cancel:
                        relay = {}
                        self.by = (k, "a cancellation")
                        facts.append("cancellations relayed")
                    elif sg == self.stop:
                        if k not in stopped:
                            pending = k
                            stopped.add(k)
                            facts.append("stops answered")
                    elif sg == self.offer:
                        order += 1
                        lineage[strip_ty(res)] = (k, order)
                        cur[k] = order
                elif k not in stopped:
                    er = bt.get(strip_ty(("t", ("fld", res, 1, 0), None))) if t == 1 else None
                    if er == GONE:
                        relay = {}
                        self.by = (k, "the loss")
                        facts.append("losses relayed")
                    elif er != EMPTY:
                        bad.append(("lost", "does not tell whether the participant of session%d is silent or gone" % k))
            else:
                v = e[2]
                if relay is not None:
                    if not is_signal(v, self.cancel):
                        bad.append(("relays", "sends %s on session%d after a cancellation" % (sh(v), k)))
                    relay[k] = relay.get(k, 0) + 1
                elif pending == k and is_signal(v, self.stop):
                    pending = None
                else:
                    bad.append(("spurious", "sends %s on session%d" % (sh(v), k)))
        ghost = (
            tuple(sorted(stopped)),
            None if relay is None else tuple(sorted(relay.items())),
            pending,
            tuple((k, None if since[k] is None else tuple(sorted(since[k]))) for k in self.slots),
        )
        if bad:
            ghost = ("bad", tuple(sorted({b[0] for b in bad})))
        return ghost, bad, facts, stopped, relay, pending


def tag_of_tags(tags, res):
    if res in tags:
        return tags[res]
    s = strip_ty(res)
    for t, v in tags.items():
        if t[0] == "t" and strip_ty(t) == s:
            return v
    return None


def judge(R, F, fams, key, f, ai, mt):
    tag = "%s[%d]" % (key, mt.fam.n)
    M = Monitor(F, mt.fam, ai, (variant(F, "Stop"), variant(F, "Cancel"), variant(F, "Offer")))
    R.count("broadcasters")
    ps, I = R.paths_of(F, key, merge=lambda st: M.scan(st.events(), st.tags)[0], max_paths=60000)
    if ps is None:
        return
    n = 0
    seen, ended, open_ = {}, set(), set()
    for p in ps:
        R.count("histories")
        ghost, bad, facts, stopped, relay, pending = M.scan(p.events, p.tags)
        for k, m in bad:
            R.check(False, tag + ":" + k, "%s %s" % (tag, m), p)
        R.check(not bad, tag + ":history", "%s misbehaves" % tag, p) if not bad else None
        for x in set(facts):
            # a history that comes back to a state is told on by another one
            if p.kind != "cut" or relay is None:
                seen[x] = seen.get(x, 0) + 1
        if relay is not None and p.kind == "cut":
            open_.add(M.by)
            continue
        if relay is not None:
            ended.add(M.by)
            R.check(p.kind == "panic", tag + ":panics", "%s does not panic after a cancellation" % tag, p)
            miss = [k for k in M.slots if k not in relay]
            R.check(not miss, tag + ":everyone", "%s does not tell the participant of session%s of the cancellation" % (tag, miss), p)
            R.check(all(c == 1 for c in relay.values()), tag + ":once", "%s sends Cancel several times on a session" % tag, p)
            continue
        if p.kind != "cut":
            R.check(pending is None, tag + ":unanswered", "%s does not answer the Stop of session%s" % (tag, pending), p)
        if p.kind == "return" and not failed(p):
            n += 1
            R.check(set(stopped) == set(M.slots), tag + ":early", "%s returns although session%s is still open" % (tag, sorted(set(M.slots) - stopped)), p)
    for k, what in sorted(open_ - ended):
        R.check(False, tag + ":panics", "%s does not panic after %s of session%d" % (tag, what, k))
    R.check(n > 0, tag + ":succeeds", "%s never succeeds" % tag)
    for x in ("cancellations relayed", "stops answered", "losses relayed"):
        R.check(x in seen, tag + ":" + x, "%s: no history with %s" % (tag, x))
        R.count(x, seen.get(x, 0))
    R.sample("%s: %d histories" % (tag, len(ps)))


def run(R, B):
    F = B.facts("aff")
    for v in ("Stop", "Cancel", "Offer"):
        R.check(variant(F, v) is not None, "anchor:" + v, "Signal::%s is gone" % v)
    fams = families(F, specs_of(B, "aff", R.tier))
    have = set()
    for key, f in sorted(F.fns.items()):
        if "inputs" in f and "body" in f and f["name"] == "watch":
            ai, mt = mesh_arg(F, fams, f)
            if mt is not None:
                have.add(mt.fam.adt)
                judge(R, F, fams, key, f, ai, mt)
    for adt in fams:
        R.check(adt in have or adt == LIB_MESH, "broadcaster:" + adt, "%s: no broadcaster" % adt)
