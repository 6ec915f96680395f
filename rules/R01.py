"""R01: the TCP and UDP layers keep the guarantees of the in-memory layer."""
from mesh import *
import B02
import B04
import B06

NEEDS = ["net"]
RULE = (
    "send_tcp/send_udp: each path makes one send on the session argument of ((payload, bytes), one end of a fresh session); with the flag set exactly one complete write of the same bytes on the stream argument, otherwise none; success returns the other end and the stream, "
    "and no success follows a failed operation; recv_tcp/recv_udp: one receive, with the flag set one read of the stream argument, success returns the payload received, its continuation, the bytes read and the stream; "
    "close: as B04; cancel: the session is dropped, never leaked; fork: connect, one fresh session, one thread given its one end and a clone of the stream, the caller given the other end and the stream, thread body as B06; "
    "choose_*!: one send, on the session argument, of ((bytes, asked label around one end of a fresh session), ..), whose other end is returned; offer_*!: one receive and exactly the branch received is run, once, on what came with it"
)
EXPLAIN = "Trace-partitioned provenance analysis over all paths of the library functions of the TCP and UDP layers (both values of the socket flag, failure of every socket and session operation) and of the expansions of their choice and offer macros."
FLOORS = {"operations": 9, "choices": 6, "offers": 2, "socket reads and writes": 4}
T = "mpstthree::transport::"


def by_ty(F, f, test):
    return [i for i, t in enumerate(f["inputs"]) if t is not None and test(F.norm(t))]


def roles_of(F, f):
    """argument numbers of (session, stream, flag, bytes, payload)"""
    ses = by_ty(F, f, lambda t: t[0] == "adt" and t[1] in SESSION_ADTS)
    sock = by_ty(F, f, lambda t: t[0] == "adt" and t[1].startswith("std::net::"))
    flag = by_ty(F, f, lambda t: t == ("prim", "bool"))
    data = by_ty(F, f, lambda t: t[0] == "ref" and t[2][0] in ("array", "slice"))
    pay = by_ty(F, f, lambda t: t[0] == "param")
    one = lambda l: l[0] if len(l) == 1 else None
    return one(ses), one(sock), one(flag), one(data), one(pay)


def isarg(v, n):
    return istok(v, "arg") and v[1][1] == n


def outcomes(p):
    """(event, result token) of everything that can fail on a path"""
    out = []
    for e in p.events:
        if e[0] in ("send", "recv"):
            out.append((e, res_of(e)))
        elif e[0] in ("ioread", "iowrite", "sock"):
            out.append((e, e[-2]))
        elif e[0] == "spawn" and istok(e[2]) and e[2][2] and "Result" in repr(e[2][2])[:40]:
            out.append((e, e[2]))
    return out


def verdicts(R, p, tag, spare=()):
    """no success after a failure, no refusal without one"""
    bad = [e for e, r in outcomes(p) if tag_of(p, r) == 1]
    open_ = [e for e, r in outcomes(p) if tag_of(p, r) is None and not any(s in e[1] for s in spare if isinstance(e[1], str))]
    real = [e for e in bad if not any(s in e[1] for s in spare if isinstance(e[1], str))]
    if failed(p):
        R.check(bool(bad), tag + ":spurious", "%s fails although nothing it did failed" % tag, p)
    else:
        R.check(not real, tag + ":swallowed", "%s reports success although its %s failed" % (tag, real[0][0] if real else ""), p)
        R.check(not open_, tag + ":unchecked", "%s reports success without looking at the result of its %s" % (tag, open_[0][0] if open_ else ""), p)


def flag_of(p, n):
    for t, v in p.conds.items():
        if isarg(t, n):
            return bool(v)
    return None


def io(p):
    return [e for e in p.events if e[0] in ("ioread", "iowrite") and e[1] != "flush"]


def whole(e, udp):
    return e[1] in (("send",) if udp else ("write_all",)) if e[0] == "iowrite" else e[1] in (("recv",) if udp else ("read_exact",))


def common(R, p, tag, kind, ioname, sock, flag, udp):
    """session and socket operations of one send or receive; returns them"""
    if not R.check(p.kind != "cut", tag + ":loop", "%s may loop" % tag, p):
        return None
    ses = session_events_all(p)
    if not R.check(len(ses) == 1 and ses[0][0] == kind and mode_of(ses[0]) == kind, tag + ":once", "%s makes %d channel operations on a path, expected one blocking %s" % (tag, len(ses), kind), p):
        return None
    l = io(p)
    on = flag_of(p, flag)
    verdicts(R, p, tag)
    if failed(p):
        R.check(len(l) <= 1, tag + ":io-once", "%s uses its socket %d times" % (tag, len(l)), p)
    else:
        if not R.check(on is not None, tag + ":flag", "%s ignores whether the socket is to be used" % tag, p):
            return None
        R.check(len(l) == (1 if on else 0), tag + ":io-once", "%s uses its socket %d times with the flag %s" % (tag, len(l), on), p)
    for e in l:
        R.count("socket reads and writes")
        R.check(on is True, tag + ":io-flag", "%s uses its socket although told not to" % tag, p)
        R.check(e[0] == ioname and whole(e, udp), tag + ":io-op", "%s performs %s on its socket (not a complete %s)" % (tag, e[1], ioname[2:]), p)
        R.check(isarg(e[2], sock), tag + ":io-socket", "%s uses the socket %s, not its argument" % (tag, sh(e[2])), p)
    return ses[0], l


def session_events_all(p):
    return [e for e in p.events if e[0] in ("send", "recv")]


def success_parts(v):
    v = v[3][0] if is_ok(v) else v
    return list(v[3]) if v is not None and v[0] == "a" and v[1][0] == "tuple" else []


def judge_send(R, F, key, udp):
    f = F.fns[key]
    tag = short(key)
    s, sock, flag, data, pay = roles_of(F, f)
    if not R.check(None not in (s, sock, flag, data, pay), "anchor:sig:" + tag, "%s no longer takes a payload, bytes, a session, a socket and a flag" % tag):
        return
    R.count("operations")
    ps, I = R.paths_of(F, key)
    n = 0
    for p in ps or ():
        got = common(R, p, tag, "send", "iowrite", sock, flag, udp)
        if got is None:
            continue
        e, l = got
        R.check(isarg(chan_holder(e[1]), s), tag + ":channel", "%s sends on %s, not on its session" % (tag, sh(e[1])), p)
        m = e[2]
        good = m is not None and m[0] == "a" and len(m[3]) == 2 and m[3][0] is not None and m[3][0][0] == "a" and len(m[3][0][3]) == 2
        bytes_ = m[3][0][3][1] if good else None
        isdata = istok(bytes_, "deref") and istok(("t", bytes_[1][1], None), "arg") and bytes_[1][1][1] == data
        R.check(good and isarg(m[3][0][3][0], pay) and isdata, tag + ":payload", "%s transmits %s instead of the given payload and bytes" % (tag, sh(m)), p)
        if not good:
            continue
        for x in l:
            R.check(x[3] is not None and x[3] == bytes_ and isdata, tag + ":bytes", "%s writes %s on the socket, not the given bytes" % (tag, sh(x[3])), p)
        if failed(p):
            continue
        n += 1
        parts = success_parts(p.value)
        R.check(len([x for x in parts if B02.fresh_pair(m[3][1], x)]) == 1, tag + ":continuation", "%s sends %s and returns %s: not the two ends of one fresh continuation" % (tag, sh(m[3][1]), sh(p.value)), p)
        R.check(len([x for x in parts if isarg(x, sock)]) == 1, tag + ":stream", "%s does not give its socket back" % tag, p)
        for x in l:
            if udp and len(parts) == 3:
                R.check(is_fld_of(parts[1], x[-2], 0, 0), tag + ":size", "%s returns %s as the number of bytes written" % (tag, sh(parts[1])), p)
        R.sample("%s: %s" % (tag, sh(m)))
    R.check(n > 0, tag + ":succeeds", "%s never succeeds" % tag)


def judge_recv(R, F, key, udp):
    f = F.fns[key]
    tag = short(key)
    s, sock, flag, _, _ = roles_of(F, f)
    if not R.check(None not in (s, sock, flag), "anchor:sig:" + tag, "%s no longer takes a session, a socket and a flag" % tag):
        return
    R.count("operations")
    ps, I = R.paths_of(F, key)
    n = 0
    for p in ps or ():
        got = common(R, p, tag, "recv", "ioread", sock, flag, udp)
        if got is None:
            continue
        e, l = got
        R.check(isarg(chan_holder(e[1]), s), tag + ":channel", "%s receives on %s, not on its session" % (tag, sh(e[1])), p)
        if failed(p):
            continue
        n += 1
        parts = success_parts(p.value)
        msg = lambda v: ok_field(v[1][1], res_of(e), 0) and v[1][3] == 0 if istok(v, "fld") and istok(v[1][1], "fld") else False
        R.check(len(parts) >= 4 and msg(parts[0]) and ok_field(parts[1], res_of(e), 1), tag + ":delivers", "%s returns %s, not the payload and continuation that arrived" % (tag, sh(p.value)[:200]), p)
        R.check(len([x for x in parts if isarg(x, sock)]) == 1, tag + ":stream", "%s does not give its socket back" % tag, p)
        for x in l:
            R.check(len(parts) >= 4 and parts[2] == x[3], tag + ":bytes", "%s returns %s, not the bytes read from the socket" % (tag, sh(parts[2] if len(parts) > 2 else None)[:200]), p)
            if udp and len(parts) == 5:
                R.check(is_fld_of(parts[3], x[-2], 0, 0), tag + ":size", "%s returns %s as the number of bytes read" % (tag, sh(parts[3])), p)
    R.check(n > 0, tag + ":succeeds", "%s never succeeds" % tag)


def judge_cancel(R, F, key):
    tag = short(key)
    R.count("operations")
    ps, I = R.paths_of(F, key)
    for p in ps or ():
        R.check(p.kind != "cut" and not session_events_all(p), tag + ":quiet", "%s uses the session it is to abandon" % tag, p)
        R.check(not p.ev("leak"), tag + ":leak", "%s keeps the session alive" % tag, p)
        if p.kind == "return":
            R.check(any(e[0] == "drop" and isarg(e[1], 0) for e in p.events), tag + ":drops", "%s does not drop the session" % tag, p)
    R.check(any(p.kind == "return" for p in ps or ()), tag + ":succeeds", "%s never succeeds" % tag)


def judge_fork(R, F, fams, key):
    """the connection and the session of a fork; the threads are judged by B06"""
    f = F.fns[key]
    tag = short(key)
    R.count("operations")
    ps, I = R.paths_of(F, key)
    n = 0
    for p in ps or ():
        verdicts(R, p, tag)
        socks = p.ev("sock")
        if failed(p):
            continue
        n += 1
        made = [e for e in socks if e[1] in ("TcpStream::connect", "UdpSocket::bind")]
        clone = [e for e in socks if e[1].endswith("::try_clone")]
        if not R.check(len(made) == 1, tag + ":socket", "%s opens %d sockets" % (tag, len(made)), p):
            continue
        stream = made[0][-2]
        strs = by_ty(F, f, lambda t: t[0] == "ref")
        addr = lambda v, i: istok(v, "deref") and v[1][1][:2] == ("arg", strs[i]) or isarg(v, strs[i])
        R.check(addr(made[0][2][0], 0), tag + ":address", "%s opens %s, not the given address" % (tag, sh(made[0][2][0])), p)
        if made[0][1].startswith("Udp"):
            con = [e for e in socks if e[1] == "UdpSocket::connect"]
            R.check(len(con) == 1 and is_fld_of(con[0][2][0], stream, 0, 0) and addr(con[0][2][1], 1), tag + ":connect", "%s does not connect its socket to the given address" % tag, p)
        sp = p.ev("spawn")
        if not R.check(len(sp) == 1, tag + ":thread", "%s starts %d threads" % (tag, len(sp)), p):
            continue
        ses = [e for e in p.ev("new") if e[1] == "session"]
        R.check(len(ses) == 1, tag + ":session", "%s creates %d sessions" % (tag, len(ses)), p)
        for e, sub in spawned(R, I, p, tag):
            for q in sub:
                iv = [x for x in q.ev("invoke") if istok(x[1], "arg")]
                if not R.check(len(iv) == 1 and len(iv[0][2]) == 2, tag + ":runs", "the thread of %s does not call its participant once" % tag, q):
                    continue
                a = list(iv[0][2])
                parts = success_parts(p.value)
                R.check(any(B02.fresh_pair(a[0], x) for x in parts), tag + ":ends", "%s gives its thread %s and returns %s: not the two ends of one session" % (tag, sh(a[0]), sh(p.value)), p)
                theirs = [x for x in clone if is_fld_of(a[1], x[-2], 0, 0) and is_fld_of(x[2][0], stream, 0, 0)]
                mine = [x for x in parts if is_fld_of(x, stream, 0, 0)]
                swap = is_fld_of(a[1], stream, 0, 0) and [x for x in parts for c in clone if is_fld_of(x, c[-2], 0, 0)]
                R.check((len(theirs) == 1 and len(mine) == 1) or bool(swap), tag + ":streams", "%s gives its thread the socket %s and returns %s" % (tag, sh(a[1]), sh(p.value)), p)
    R.check(n > 0, tag + ":succeeds", "%s never succeeds" % tag)
    B06.judge(R, F, fams, key, f)


def judge_choose(R, F, key, i):
    tag = short(key)
    R.count("choices")
    ps, I = R.paths_of(F, key)
    ok = 0
    for p in ps or ():
        ses = session_events_all(p)
        if not R.check(len(ses) == 1 and ses[0][0] == "send", tag + ":once", "%s makes %d channel operations, expected one send" % (tag, len(ses)), p):
            continue
        e = ses[0]
        R.check(isarg(chan_holder(e[1]), 0), tag + ":channel", "%s sends on %s" % (tag, sh(e[1])), p)
        m = e[2]
        pay = m[3][0] if m is not None and m[0] == "a" and len(m[3]) == 2 else None
        good = pay is not None and pay[0] == "a" and len(pay[3]) == 2
        lab = pay[3][1] if good else None
        good = good and isarg(pay[3][0], 1) and lab is not None and lab[0] == "a" and lab[1][0] == "adt" and lab[1][1] == "w_net::Label" and lab[2] == i and len(lab[3]) == 1
        if R.check(good, tag + ":label", "%s transmits %s instead of the bytes and the asked branch" % (tag, sh(pay)), p) and p.kind == "return":
            ok += 1
            R.check(B02.fresh_pair(lab[3][0], p.value), tag + ":continuation", "%s sends %s and goes on with %s: not the two ends of one fresh continuation" % (tag, sh(lab), sh(p.value)), p)
    R.check(ok > 0, tag + ":succeeds", "%s never succeeds" % tag)


def judge_offer(R, F, key):
    tag = short(key)
    R.count("offers")
    ps, I = R.paths_of(F, key)
    ran = set()
    for p in ps or ():
        ses = session_events_all(p)
        if not R.check(len(ses) == 1 and ses[0][0] == "recv" and mode_of(ses[0]) == "recv", tag + ":once", "%s makes %d channel operations, expected one receive" % (tag, len(ses)), p):
            continue
        e = ses[0]
        R.check(isarg(chan_holder(e[1]), 0), tag + ":channel", "%s receives on %s" % (tag, sh(e[1])), p)
        iv = p.ev("invoke")
        lost = tag_of(p, res_of(e)) == 1
        labs = [(t, v) for t, v in p.tags.items() if istok(t, "fld") and istok(t[1][1], "fld") and ok_field(t[1][1], res_of(e), 0) and t[1][3] == 1]
        if lost:
            R.check(not iv and failed(p), tag + ":lost", "%s goes on although nothing arrived" % tag, p)
            continue
        if not iv:
            R.check(False, tag + ":drops", "%s runs no branch although a label arrived" % tag, p)
            continue
        good = len(iv) == 1 and len(labs) == 1 and isarg(iv[0][1], 1 + labs[0][1]) and len(iv[0][2]) == 1 and is_fld_of(iv[0][2][0], labs[0][0], labs[0][1], 0)
        if R.check(good, tag + ":dispatch", "%s runs %s for label %s" % (tag, [sh(x[1]) + sh(x[2]) for x in iv], [v for _, v in labs]), p):
            ran.add(labs[0][1])
            R.check(p.value == iv[0][3] or failed(p) or tag_of(p, iv[0][3]) == 0, tag + ":result", "%s does not return the result of the branch" % tag, p)
    R.check(ran == {0, 1, 2}, tag + ":branches", "%s runs branches %s of 3" % (tag, sorted(ran)))


def run(R, B):
    F = B.facts("net")
    for udp, k in ((False, "tcp"), (True, "udp")):
        t = T + k + "::"
        todo = [(judge_send, "send::send_" + k, (udp,)), (judge_recv, "recv::recv_" + k, (udp,)), (judge_cancel, "cancel::cancel_" + k, ())]
        for fn, name, more in todo:
            if R.check(t + name in F.fns and "body" in F.fns[t + name], "anchor:" + name, "public function %s is gone" % (t + name)):
                fn(R, F, t + name, *more)
        key = t + "fork::fork_" + k
        if R.check(key in F.fns and "body" in F.fns[key], "anchor:fork_" + k, "public function %s is gone" % key):
            judge_fork(R, F, {}, key)
        for i in range(3):
            judge_choose(R, F, "w_net::choose_%s_%d" % (k, i), i)
        judge_offer(R, F, "w_net::offer_" + k)
    n = 0
    for key, f, ends in B04.closes(F, {}):
        if key.startswith(T):
            n += 1
            R.count("operations")
            B04.judge(R, F, {}, key, f, short(key), ends)
    R.check(n >= 1, "anchor:close_tcp", "no close operation is left in the socket layers")
