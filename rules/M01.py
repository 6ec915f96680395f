"""M01: every pair of participants is joined by one private dual session, in its place."""
from mesh import *
import M03

NEEDS = ["mesh", "aff"]
RULE = (
    "for every operation that creates endpoints for several participants (fork functions, interleaved forks, choices): on every successful path the endpoints handed to (or sent to) the participants and kept by the caller hold, "
    "for every unordered pair, the two ends of one fresh session, each in the slot of its holder reserved for the other, and no session end sits in two places; participant i's closure gets participant i's endpoint; in affine choices all pairs without the broadcaster are joined so, and the other ends of their sessions with the broadcaster are exactly the ones handed out for it"
)
EXPLAIN = "Provenance of every session end from its creation to the slot it ends in, on every path of every fork and choice function (library and expansions for several numbers of participants), thread bodies included."
FLOORS = {"forks": 20, "choices": 180, "pairs wired": 900, "affine choices": 20, "relays wired": 40}


def endpoints(R, F, fams, tag, p, groups):
    """groups: {participant position: value handed to it}; -> {family: {participant: slots}}"""


def judge_fork(R, F, fams, key, f, plan):
    """plan: {closure argument index: [(family, participant), ...]} in argument order of the closure"""
    tag = short(key)
    R.count("forks")
    ps, I = R.paths_of(F, key, mods=TIMED)
    if ps is None:
        return
    n = 0
    for p in ps:
        if p.kind != "return" or failed(p):
            continue
        n += 1
        calls = {}
        for e, sub in spawned(R, I, p, tag):
            per = set()
            for q in sub:
                for iv in q.ev("invoke"):
                    if istok(iv[1], "arg"):
                        per.add((iv[1][1][1], iv[2]))
            for a, args in per:
                calls.setdefault(a, []).append(args)
        for iv in p.ev("invoke"):
            if istok(iv[1], "arg"):
                calls.setdefault(iv[1][1][1], []).append(iv[2])
        got = {}
        for a, want in plan.items():
            l = calls.get(a, [])
            if not R.check(len(l) >= 1, tag + ":participant%d" % a, "%s never runs its closure %d" % (tag, a), p):
                continue
            args = [x for x in l[0]]
            ms = [x for x in args if is_mesh_value(fams, x)]
            if not R.check(len(ms) == len(want), tag + ":endpoints%d" % a, "%s gives closure %d the arguments %s" % (tag, a, [sh(x) for x in args]), p):
                continue
            for m, (adt, who) in zip(ms, want):
                if R.check(m[1][1] == adt, tag + ":kind%d" % a, "%s gives closure %d an endpoint of %s" % (tag, a, m[1][1]), p):
                    got.setdefault(adt, {})[who] = parts(F, fams[adt], m)[0]
        for adt in {x[0] for w in plan.values() for x in w}:
            wiring(R, F, fams[adt], got.get(adt, {}), tag + (":" + adt.rsplit("::", 1)[1] if len(plan) and len(got) > 1 else ""), p)
    R.check(n > 0, tag + ":succeeds", "%s never succeeds" % tag)


def judge_choice(R, F, fams, key, f, ai, mt):
    fam, me = mt.fam, mt.who()
    tag = "%s:%s[%s]" % (key.split("::{impl#")[0].replace("::" + f["name"], ""), f["name"], fam.order[me - 1])
    R.count("choices")
    ps, I = R.paths_of(F, key, mods=TIMED)
    if ps is None:
        return
    for p in ps:
        if failed(p) or p.kind != "return":
            continue
        ms = M03.messages(R, F, fam, p, ai, me, tag)
        got = {}
        for j in fam.others(me):
            l = ms.get(fam.slot(me, j), [])
            if R.check(len(l) == 1, tag + ":message", "%s sends %d messages to %s" % (tag, len(l), fam.order[j - 1]), p):
                pt = parts(F, fam, l[0][2])
                if R.check(pt is not None, tag + ":endpoint", "%s sends %s" % (tag, sh(l[0][2])), p):
                    got[j] = pt[0]
        pt = parts(F, fam, okval(p))
        if R.check(pt is not None, tag + ":result", "%s returns %s" % (tag, sh(p.value)), p):
            got[me] = pt[0]
        wiring(R, F, fam, got, tag, p)


def plans(F, fams, tier, B):
    """{fork function: plan}"""
    import genwitness as g

    out = {}
    for key, f in forks(F, fams):
        mod = key.rsplit("::", 1)[0]
        if key.startswith("mpstthree::"):
            if LIB_MESH in fams and "functionmpst::fork::fork_mpst" in key:
                out[key] = {i: [(LIB_MESH, i + 1)] for i in range(3)}
            elif key.endswith("interleaved::fork::fork_mpst_solo"):
                out[key] = {0: [(LIB_MESH, 1), (LIB_MESH, 2), (LIB_MESH, 3)]}
            continue
        il = [x for x in g.interleaved_modules(tier) if key.startswith("w_mesh::%s::" % x[0])]
        if il:
            _, _, r1, i1, r2, i2 = il[0]
            a1, a2 = mod + "::MeshOne", mod + "::MeshTwo"
            plan, k = {}, 0
            for adt, r, i in ((a1, r1, i1), (a2, r2, i2)):
                for j in range(1, len(r) + 1):
                    if j != i:
                        plan[k] = [(adt, j)]
                        k += 1
            plan[k] = [(a1, i1), (a2, i2)]
            out[key] = plan
            continue
        adt = mod + "::MeshedChannels"
        if adt in fams and key.endswith("::fork_solo"):
            out[key] = {0: [(adt, i + 1) for i in range(fams[adt].n)]}
        elif adt in fams:
            out[key] = {i: [(adt, i + 1)] for i in range(fams[adt].n)}
    return out


def run(R, B):
    import affine

    F = B.facts("mesh")
    fams = families(F, specs_of(B, "mesh", R.tier))
    pl = plans(F, fams, R.tier, B)
    for k in ("mpstthree::functionmpst::fork::fork_mpst", "mpstthree::interleaved::fork::fork_mpst_solo"):
        R.check(k in pl, "anchor:" + k, "%s is gone" % k)
    for key, plan in sorted(pl.items()):
        judge_fork(R, F, fams, key, F.fns[key], plan)
    for key, f, ai, mt in M03.choices(F, fams):
        judge_choice(R, F, fams, key, f, ai, mt)
    affine.joined(R, B)
