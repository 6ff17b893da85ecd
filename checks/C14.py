"""Sender and receiver agree. For every kind of message buzzoutmsg_queue_first is interpreted abstractly on a queued message with symbolic contents;
the resulting sequence of byte terms (serialized objects kept as single opaque items, their own round trip is C13) becomes the payload on which
buzzvm_process_inmsgs is interpreted. On every path the effect at the receiver must be the intended one, with exactly the sender's symbolic
ids, keys, values, timestamps and robots."""
from bzsa.terms import *
from bzsa.absint import INF
from bzsa.natenv import Msg
from bzsa.qenv import Q
from bzsa.vmspec import fold


def send(C, prep):
    """[(items)] payloads produced for the queued message"""
    N = Q(C)
    objs = {}

    def ser(e, st, args, fn, ins):
        da = st.simp(args[0])
        n = N.V.asize(st, da)
        d = e.load(st, addc(da, N.v.DA["data"]), "ptr")
        e.store(st, add(d, n), mk("objbyte", args[1], width=8), "i8")
        e.store(st, addc(da, N.v.DA["size"]), addc(n, 1), "i64")
        return st, None
    N.e.models["buzzobj_serialize"] = ser
    prep(N)
    out = []
    for o in N.run("buzzoutmsg_queue_first", [N.vm]):
        st = o.st
        n = N.V.asize(st, o.ret)
        if n.op != "i":
            out.append((None, st, N))
            continue
        items = []
        for i in range(n.a[0]):
            b = N.V.aget(st, o.ret, I(i), "i8")
            items.append(b.a[0] if b.op == "objbyte" else (fold(st, b), 1))
        out.append((items, st, N))
    return out


def receive(C, items, prep):
    N = Msg(C)
    N.e.unroll = 6
    prep(N)
    N.payload(items)
    for t in list(N.V.st.facts):
        pass
    return N, N.run("buzzvm_process_inmsgs")


EFF = ("out_vs", "out_bc", "out_jl", "out_list", "m_join", "m_leave", "m_refresh", "ccall", "vset", "vremove", "dset", "dremove")


def check(C, inst, prepS, prepR, expect):
    for items, st, S in send(C, prepS):
        C.ob("agreement", inst)
        if items is None:
            C.fail("agreement", inst, S.where, "the payload's length is not determined by the message", st.trail)
            continue
        N, outs = receive(C, items, prepR)
        if not outs:
            C.fail("agreement", inst, N.where, "no path processes the message", ())
        for o in outs:
            C.ob("agreement", inst)
            ev = [x for x in N.evs(o.st, *EFF) if not (x[0] in ("dset", "dremove") and x[1].op == "vsdata")]
            m = expect(N, o.st, ev)
            if m:
                C.fail("agreement", inst, N.where, m, o.st.trail)
            u = N.uaf(o.st)
            if u:
                C.fail("agreement", inst, N.where, "%s is %s after it was released" % (show(u[0][1]), u[0][3]), o.st.trail)


def names(ev):
    return ", ".join(x[0] for x in ev) or "no effect"


def run(C):
    v = C.env
    # broadcast
    for lis in (True, False):
        def prepR(N, lis=lis):
            t = N.V.obj("topic0", v.STRING)
            N.sid = mk("topicsid", width=16)
            N.e.store(N.st, addc(t, v.sv["sid"]), N.sid, "i16")
            d = mk("vmf", "listeners")
            N.st.ghost[("d", d, N.sid)] = "yes" if lis else "no"
            N.lis = N.V.obj("listener", v.CLOSURE)
            if lis:
                c = N.dd.cell(d, N.sid)
                N.st.facts[c] = (1, INF, frozenset())
                N.e.store(N.st, c, N.lis, "ptr")

        def expect(N, st, ev, lis=lis):
            if not lis:
                return None if not ev else "a broadcast nobody listens to has effects: %s" % names(ev)
            if len(ev) != 1 or ev[0][0] != "ccall":
                return "expected one listener call, found %s" % names(ev)
            a = ev[0][2]
            if ev[0][1] is not N.lis or len(a) != 3 or a[0] is not mk("obj", "topic0") or a[1] is not mk("obj", "bcval0"):
                return "the listener is called with %s" % [show(x) for x in a]
            if N.V.type_of(st, a[2]) is not I(v.INT) or fold(st, N.V.ival(st, a[2])) is not N.rid:
                return "the listener is told robot %s" % show(N.V.ival(st, a[2]))
        check(C, "broadcast, %s" % ("listener" if lis else "no listener"), lambda N: N.bc("0"), prepR, expect)
    # swarm lists
    for n in (1, 2, 3):
        ids = [mk("sid_", i, width=16) for i in range(n)]

        def expect(N, st, ev, ids=ids):
            if len(ev) != 1 or ev[0][0] != "m_refresh":
                return "expected the sender's swarms to be replaced, found %s" % names(ev)
            z = N.V.asize(st, ev[0][3])
            got = [fold(st, N.V.aget(st, ev[0][3], I(i), "i16")) for i in range(z.a[0])] if z.op == "i" else None
            if ev[0][1] is not mk("vmf", "swarmmembers") or fold(st, ev[0][2]) is not N.rid or got != ids:
                return "robot %s is recorded in %s" % (show(ev[0][2]), got and [show(x) for x in got])
        check(C, "list of %d swarms" % n, lambda N, ids=ids: N.sw("SWARM_LIST", "0", ids), lambda N: None, expect)
    # join, leave
    for k, e in (("SWARM_JOIN", "m_join"), ("SWARM_LEAVE", "m_leave")):
        x = mk("sid_", 0, width=16)

        def expect(N, st, ev, e=e, x=x):
            if len(ev) != 1 or ev[0][0] != e:
                return "expected %s, found %s" % (e, names(ev))
            if ev[0][1] is not mk("vmf", "swarmmembers") or fold(st, ev[0][2]) is not N.rid or fold(st, ev[0][3]) is not x:
                return "recorded for robot %s and swarm %s" % (show(ev[0][2]), show(fold(st, ev[0][3])))
        check(C, k, lambda N, k=k, x=x: N.sw(k, "0", [x]), lambda N: None, expect)
    # stigmergy
    for k in ("VSTIG_PUT", "VSTIG_QUERY"):
        idt, ts, rob = mk("mvid", k, "0", width=16), mk("mts", k, "0", width=16), mk("mrob", k, "0", width=16)
        key, data = mk("obj", "mkey%s0" % k), mk("obj", "mdata%s0" % k)
        kt = mk("ikey", mk("mkv", k, "0", width=32))
        for known in (True, False):
            def prepR(N, known=known, k=k, idt=idt, kt=kt):
                o = N.V.obj("mkey%s0" % k, v.INT)
                N.e.store(N.st, addc(o, v.vi), mk("mkv", k, "0", width=32), "i32")
                N.V.obj("mdata%s0" % k, v.FLOAT)
                if known:
                    vs, N.data = N.vstig(idt)
                    N.st.ghost[("d", N.data, kt)] = "no"
                else:
                    N.st.ghost[("d", mk("vmf", "vstigs"), idt)] = "no"

            def expect(N, st, ev, known=known, k=k, idt=idt, ts=ts, rob=rob, kt=kt, data=data):
                def outmsg(x, t):
                    return x[0] == "out_vs" and x[1] is I(N.MT[t]) and x[2] is idt and N.dd.canonkey(N.e, st, x[3]) is kt and x[4] is data and x[5] is ts and x[6] is rob
                if not known:
                    if k == "VSTIG_PUT":
                        return None if not ev else "a PUT for an unknown stigmergy has effects: %s" % names(ev)
                    return None if len(ev) == 1 and outmsg(ev[0], k) else "an unknown QUERY must be forwarded as it is, found %s" % names(ev)
                if len(ev) != 2 or {x[0] for x in ev} != {"vset", "out_vs"}:
                    return "expected the entry to be stored and forwarded, found %s" % names(ev)
                x = [y for y in ev if y[0] == "vset"][0]
                if x[1] is not N.data or x[2] is not kt or N.src(st, x[4]) is not data or x[5] is not ts or x[6] is not rob:
                    return "the entry stored is %s = (%s, %s, %s)" % tuple(show(y) for y in (x[2], x[4], x[5], x[6]))
                if not outmsg([y for y in ev if y[0] == "out_vs"][0], "VSTIG_PUT"):
                    return "another entry is forwarded"
            check(C, "%s, %s stigmergy" % (k, "known" if known else "unknown"), lambda N, k=k: N.vs(k, "0"), prepR, expect)
    kinds = {k[len("BUZZMSG_"):]: x for k, x in C.prog.enumvals.items() if k.startswith("BUZZMSG_")}
    if len(set(kinds.values())) != len(kinds):
        C.fail("kinds", "message kinds", "buzzmsg.h", "two kinds of message have the same code", ())
    C.ob("kinds", "message kinds")


MINIMA = {"agreement": 20, "kinds": 1}
