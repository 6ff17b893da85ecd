"""Message queues. The queue operations are interpreted abstractly on queues of 0 to 2 messages of every kind (all emptiness patterns) with
symbolic contents, so that every pattern of equal and different ids, keys and timestamps is covered by paths. Per path the final
queues (order included), the duplicate index and the contents of new messages must be the ones defined; first() must describe the message
that next() removes; released messages are never used."""
from bzsa.terms import *
from bzsa.absint import INF
from bzsa.natenv import Safe, fields
from bzsa.qenv import Q, KINDS
from bzsa.vmspec import fold, feasible


def same(C, rule, inst, N, st, want):
    """final queue contents by kind"""
    got = N.all(st)
    for k in KINDS:
        w = want.get(k, N.before[k])
        if got[k] != w:
            C.fail(rule, inst, N.where, "the %s queue holds %s afterwards instead of %s" % (
                k, got[k] and [show(x) for x in got[k]], [show(x) for x in w]), st.trail)
            return False
    for k in KINDS:
        for m in got[k]:
            if ("freed", m) in st.ghost:
                C.fail(rule, inst, N.where, "a queued message has been released", st.trail)
                return False
    return True


def clean(C, rule, inst, N, st):
    p = N.problems(st)
    if p:
        C.fail(rule, inst, N.where, p, st.trail)
    return not p


def run(C):
    v = C.env
    broadcast(C)
    joinleave(C)
    lists(C)
    vstig(C)
    front(C)
    period(C)
    incoming(C)
    C.assume("queue lengths up to 2 per kind, swarm lists up to 3 ids; contents are symbolic")


def go(N, fn, args):
    N.before = N.all(N.st)
    return N.run(fn, args)


def fill(N, pat):
    for k, n in pat.items():
        for i in range(n):
            if k == "BROADCAST":
                N.bc(str(i))
            elif k == "SWARM_LIST":
                N.sw(k, str(i), [mk("lsid", i, j, width=16) for j in range(2)])
            elif k in ("SWARM_JOIN", "SWARM_LEAVE"):
                N.sw(k, str(i), [mk("jsid", k, i, width=16)])
            else:
                m = N.vs(k, str(i))
                d = N.vsdict(mk("mvid", k, str(i), width=16), (k, i))
                N.vsindex(d, mk("ikey", mk("mkv", k, str(i), width=32)), m)


def broadcast(C):
    fn = "buzzoutmsg_queue_append_broadcast"
    for n in range(3):
        N = Q(C)
        fill(N, {"BROADCAST": n, "SWARM_JOIN": 1, "VSTIG_PUT": 1, "SWARM_LIST": 0})
        t, x = N.V.obj("newtopic", N.v.STRING), N.V.obj("newval")
        inst = "broadcast onto %d others" % n
        for o in go(N, fn, [N.vm, t, x]):
            st = o.st
            C.ob("broadcast", inst)
            if not clean(C, "broadcast", inst, N, st):
                continue
            got = N.msgs(st, "BROADCAST")
            if got is None or len(got) != n + 1 or got[:n] != N.before["BROADCAST"]:
                C.fail("broadcast", inst, N.where, "the message is not appended at the end", st.trail)
                continue
            same(C, "broadcast", inst, N, st, {"BROADCAST": got})
            f = N.F["broadcast"]
            a, b = (st.simp(N.e.load(st, addc(got[n], f[y]), "ptr")) for y in ("topic", "value"))
            ty = st.simp(N.e.load(st, got[n], "i32"))
            if N.src(st, a) is not t or N.src(st, b) is not x or ty is not I(N.MT["BROADCAST"]):
                C.fail("broadcast", inst, N.where, "the message carries %s, %s" % (show(a), show(b)), st.trail)
            if b is x:
                C.fail("broadcast", inst, N.where, "the value is not a copy: later changes to it would be sent", st.trail)


def eqcase(N, st, ids, x):
    """split on which of the (distinct) ids equals x: [(state, index or -1)]"""
    out = []
    for j in range(-1, len(ids)):
        s2 = feasible(st, [(icmp("eq", y, x), i == j) for i, y in enumerate(ids)])
        if s2 is not None:
            out.append((s2, j))
    return out


def distinct(st, ids):
    for i in range(len(ids)):
        for j in range(i):
            st.assume(icmp("eq", ids[i], ids[j]), False)


def joinleave(C):
    fn = "buzzoutmsg_queue_append_swarm_joinleave"
    for typ in ("SWARM_JOIN", "SWARM_LEAVE"):
        other = "SWARM_LEAVE" if typ == "SWARM_JOIN" else "SWARM_JOIN"
        for a in range(4):
            for b in range(3):
                N = Q(C)
                ids = {"SWARM_JOIN": [mk("jid", "J", i, width=16) for i in range(a)], "SWARM_LEAVE": [mk("jid", "L", i, width=16) for i in range(b)]}
                N.bc("0")
                for k in ids:
                    for i, x in enumerate(ids[k]):
                        N.sw(k, str(i), [x])
                every = ids["SWARM_JOIN"] + ids["SWARM_LEAVE"]
                distinct(N.st, every)
                x = mk("newsid", width=16)
                inst0 = "%s, %d joins and %d leaves queued" % (typ, a, b)
                seen = set()
                for o in go(N, fn, [N.vm, I(N.MT[typ]), x]):
                    for st, j in eqcase(N, o.st, every, x):
                        seen.add(j)
                        dup = -1 if j < 0 else ("SWARM_JOIN" if j < a else "SWARM_LEAVE")
                        inst = inst0 + {-1: ", new id"}.get(dup, ", id in the %s queue" % dup)
                        C.ob("join-leave", inst)
                        if not clean(C, "join-leave", inst, N, st):
                            continue
                        want = {k: [fold(st, y) for i, y in enumerate(ids[k])] for k in ids}
                        xx = fold(st, x)
                        want[other] = [y for y in want[other] if y is not xx and not (st.ev(icmp("eq", y, x)) is True)]
                        if dup != typ:
                            want[typ] = want[typ] + [xx]
                        got = {}
                        for k in ids:
                            ms = N.msgs(st, k)
                            got[k] = []
                            for m in ms or ():
                                i = N.ids(st, m)
                                if i is None or len(i) != 1 or st.simp(N.e.load(st, m, "i32")) is not I(N.MT[k]) or ("freed", m) in st.ghost:
                                    got[k] = None
                                    break
                                got[k] += i
                        if got != want:
                            C.fail("join-leave", inst, N.where, "announces join %s leave %s instead of join %s leave %s" % tuple(
                                z and [show(y) for y in z] for z in (got["SWARM_JOIN"], got["SWARM_LEAVE"], want["SWARM_JOIN"], want["SWARM_LEAVE"])), st.trail)
                        same(C, "join-leave", inst, N, st, {k: N.msgs(st, k) for k in ids})
                if seen != set(range(-1, len(every))):
                    C.fail("join-leave", inst0, N.where, "no path handles some ids", ())
        for n in range(4):
            N = Q(C)
            ids = [mk("lid", i, width=16) for i in range(n)]
            distinct(N.st, ids)
            N.sw("SWARM_LIST", "0", ids)
            x = mk("newsid", width=16)
            inst0 = "%s, list of %d queued" % (typ, n)
            seen = set()
            for o in go(N, fn, [N.vm, I(N.MT[typ]), x]):
                for st, j in eqcase(N, o.st, ids, x):
                    seen.add(j)
                    inst = inst0 + (", id in it" if j >= 0 else ", id not in it")
                    C.ob("join-leave", inst)
                    if not clean(C, "join-leave", inst, N, st) or not same(C, "join-leave", inst, N, st, {}):
                        continue
                    w = [fold(st, y) for y in ids]
                    if typ == "SWARM_JOIN" and j < 0:
                        w = w + [fold(st, x)]
                    if typ == "SWARM_LEAVE" and j >= 0:
                        del w[j]
                    got = N.ids(st, N.msgs(st, "SWARM_LIST")[0])
                    if got is None or sorted(got, key=lambda t: t.uid) != sorted(w, key=lambda t: t.uid):
                        C.fail("join-leave", inst, N.where, "the queued list becomes %s instead of %s" % (got and [show(y) for y in got], [show(y) for y in w]), st.trail)
            if seen != set(range(-1, n)):
                C.fail("join-leave", inst0, N.where, "no path handles some ids", ())


def lists(C):
    fn = "buzzoutmsg_queue_append_swarm_list"
    for pre in range(2):
        for n in range(4):
            for bits in range(1 << n):
                N = Q(C)
                fill(N, {"SWARM_LIST": pre, "SWARM_JOIN": 0 if pre else 2, "SWARM_LEAVE": 0 if pre else 1, "BROADCAST": 1, "VSTIG_PUT": 1})
                d = mk("vmf", "swarms")
                ids = [mk("own", i, width=16) for i in range(n)]
                N.st.ghost[("dconc", d)] = tuple((ids[i], "i16", I(bits >> i & 1), "i8") for i in range(n))
                inst = "list of %d swarms, member of %d, %s queued before" % (n, bin(bits).count("1"), "a list" if pre else "joins and leaves")
                for o in go(N, fn, [N.vm, d]):
                    st = o.st
                    C.ob("list", inst)
                    if not clean(C, "list", inst, N, st):
                        continue
                    ms = N.msgs(st, "SWARM_LIST")
                    if ms is None or len(ms) != 1:
                        C.fail("list", inst, N.where, "%s lists are queued" % (ms and len(ms)), st.trail)
                        continue
                    same(C, "list", inst, N, st, {"SWARM_LIST": ms, "SWARM_JOIN": [], "SWARM_LEAVE": []})
                    got = N.ids(st, ms[0])
                    w = [ids[i] for i in range(n) if bits >> i & 1]
                    if got is None or sorted(got, key=str) != sorted(w, key=str) or st.simp(N.e.load(st, ms[0], "i32")) is not I(N.MT["SWARM_LIST"]):
                        C.fail("list", inst, N.where, "announces %s instead of %s" % (got and [show(y) for y in got], [show(y) for y in w]), st.trail)


def vstig(C):
    fn = "buzzoutmsg_queue_append_vstig"
    for typ in ("VSTIG_PUT", "VSTIG_QUERY"):
        for have in ("no index", "no entry") + tuple((k, i, n) for k in ("VSTIG_PUT", "VSTIG_QUERY") for n in (1, 2, 3) for i in range(n)):
            N = Q(C)
            st0 = N.st
            idt = mk("newvid", width=16)
            key = N.V.obj("newkey", N.v.INT)
            kt = mk("ikey", mk("newkv", width=32))
            N.e.store(st0, addc(key, N.v.vi), mk("newkv", width=32), "i32")
            val = N.V.obj("newval")
            el = mk("newelem")
            st0.facts[el] = (1, INF, frozenset())
            ts, rob = mk("newts", width=16), mk("newrob", width=16)
            for f, t, w in (("data", val, "ptr"), ("timestamp", ts, "i16"), ("robot", rob, "i16")):
                N.e.store(st0, addc(el, N.VE[f]), t, w)
            N.bc("0")
            old = None
            n = have[2] if isinstance(have, tuple) else 2
            for k in ("VSTIG_PUT", "VSTIG_QUERY"):
                for i in range(n if k == have[0] else 2):
                    if isinstance(have, tuple) and k == have[0] and i == have[1]:
                        kc = N.V.obj("oldkey", N.v.INT)
                        N.e.store(st0, addc(kc, N.v.vi), mk("newkv", width=32), "i32")
                        old = N.vs(k, "old", idt, kc)
                    else:
                        N.vs(k, str(i))
            D = None
            if have == "no index":
                st0.ghost[("d", N.vd, idt)] = "no"
            else:
                D = N.vsdict(idt)
                N.vsindex(D, kt, old)
            inst0 = "%s, %s" % (typ, have if isinstance(have, str) else "same key queued at %s %d of %d" % have)
            seen = set()
            for o in go(N, fn, [N.vm, I(N.MT[typ]), idt, key, el]):
                rows = [(o.st, True)]
                if old is not None:
                    rows = [(feasible(o.st, [(icmp("slt", mk("mts", have[0], "old", width=16), ts), nw)]), nw) for nw in (True, False)]
                for st, newer in rows:
                    if st is None:
                        continue
                    seen.add(newer)
                    inst = inst0 + ("" if old is None else ", older" if newer else ", newer or as new")
                    C.ob("stigmergy", inst)
                    if not clean(C, "stigmergy", inst, N, st):
                        continue
                    if ("freed", el) in st.ghost:
                        C.fail("stigmergy", inst, N.where, "releases the caller's element", st.trail)
                    if not newer:
                        same(C, "stigmergy", inst, N, st, {})
                        if st.ghost.get(("d", D, kt)) != "yes" or st.simp(N.e.load(st, N.dd.cell(D, kt, st), "ptr")) is not old:
                            C.fail("stigmergy", inst, N.where, "the duplicate index forgets the queued message", st.trail)
                        continue
                    want = {k: [m for m in N.before[k] if m is not old] for k in ("VSTIG_PUT", "VSTIG_QUERY")}
                    got = N.msgs(st, typ)
                    if not got or got[:-1] != want[typ] or got[-1] in N.before[typ]:
                        C.fail("stigmergy", inst, N.where, "the queue becomes %s" % (got and [show(x) for x in got]), st.trail)
                        continue
                    m = got[-1]
                    want[typ] = got
                    if not same(C, "stigmergy", inst, N, st, want):
                        continue
                    f = N.F["vstig"]
                    ld = lambda x, w: fold(st, N.e.load(st, addc(m, f[x]), w))
                    mel = ld("data", "ptr")
                    d, t, r = N.elem(st, mel)
                    mk_ = ld("key", "ptr")
                    if mel is el or ("freed", mel) in st.ghost:
                        C.fail("stigmergy", inst, N.where, "the message keeps the caller's element, which the caller releases or changes", st.trail)
                    if st.simp(N.e.load(st, m, "i32")) is not I(N.MT[typ]) or ld("id", "i16") is not fold(st, idt) or \
                            N.dd.canonkey(N.e, st, mk_) is not kt or N.src(st, d) is not val or t is not fold(st, ts) or r is not fold(st, rob):
                        C.fail("stigmergy", inst, N.where, "the message carries (%s, %s, %s, %s, %s)" % tuple(show(x) for x in (ld("id", "i16"), mk_, d, t, r)), st.trail)
                    if d is val:
                        C.fail("stigmergy", inst, N.where, "the value is not a copy: later changes to it would be sent", st.trail)
                    dx = D
                    if D is None:
                        g = N.dictval(st, N.vd, idt, "ptr") if hasattr(N, "dictval") else None
                        dx = st.simp(N.e.load(st, N.dd.cell(N.vd, idt, st), "ptr")) if st.ghost.get(("d", N.vd, idt)) == "yes" else None
                    if dx is None or st.ghost.get(("d", dx, kt)) != "yes" or st.simp(N.e.load(st, N.dd.cell(dx, kt, st), "ptr")) is not m:
                        C.fail("stigmergy", inst, N.where, "the duplicate index does not know the new message", st.trail)
            if seen != ({True} if old is None else {True, False}):
                C.fail("stigmergy", inst0, N.where, "no path handles some timestamps", ())
    # the comparison used to find a queued message identifies it
    for fnm in {x[1].a[0] for x in finders(C) if x[1].op == "fn"}:
        for eq in (True, False):
            N = Q(C)
            a, b, p, q = mk("pa"), mk("pb"), mk("ma"), mk("mb")
            if eq:
                q = p
            for t in (a, b, p, q):
                N.st.facts[t] = (1, INF, frozenset())
            if not eq:
                N.st.assume(icmp("eq", p, q), False)
            N.e.store(N.st, a, p, "ptr")
            N.e.store(N.st, b, q, "ptr")
            for o in N.run(fnm, [a, b]):
                C.ob("identity", "%s of %s messages" % (fnm, "equal" if eq else "different"))
                if o.st.ev(icmp("eq", o.ret, ZERO)) is not eq:
                    C.fail("identity", fnm, N.where, "returns %s for %s messages" % (show(o.ret), "equal" if eq else "different"), o.st.trail)


def finders(C):
    N = Q(C)
    idt, key, kt = mk("newvid", width=16), N.V.obj("newkey", N.v.INT), mk("ikey", mk("newkv", width=32))
    N.e.store(N.st, addc(key, N.v.vi), mk("newkv", width=32), "i32")
    el = mk("newelem")
    N.st.facts[el] = (1, INF, frozenset())
    old = N.vs("VSTIG_PUT", "old", idt, key)
    D = N.vsdict(idt)
    N.vsindex(D, kt, old)
    r = []
    for o in N.run("buzzoutmsg_queue_append_vstig", [N.vm, I(N.MT["VSTIG_PUT"]), idt, key, el]):
        r += N.evs(o.st, "qfind")
    return r


def front(C):
    for bits in range(64):
        pat = {k: 2 if bits >> i & 1 else 0 for i, k in enumerate(KINDS)}
        names = [k for k in KINDS if pat[k]]
        inst = "queued: %s" % (", ".join(names) or "nothing")
        total = sum(pat.values())
        # first
        N = Q(C)
        fill(N, pat)
        N.e.models["buzzobj_serialize"] = N.rec("ser")
        took = None
        for o in go(N, "buzzoutmsg_queue_first", [N.vm]):
            st = o.st
            C.ob("front", inst)
            if not clean(C, "front", inst, N, st) or not same(C, "front", inst, N, st, {}):
                continue
            if total == 0:
                if st.ev(icmp("eq", o.ret, ZERO)) is not True:
                    C.fail("front", inst, N.where, "returns a message although nothing is queued", st.trail)
                continue
            if st.ev(icmp("eq", o.ret, ZERO)) is not False:
                C.fail("front", inst, N.where, "returns no message", st.trail)
                continue
            n = N.V.asize(st, o.ret)
            t = fold(st, N.V.aget(st, o.ret, ZERO, "i8")) if n.op == "i" and n.a[0] else None
            kind = [k for k in KINDS if t is I(N.MT[k])]
            if not kind or not pat[kind[0]]:
                C.fail("front", inst, N.where, "the message sent is of kind %s" % (t and show(t)), st.trail)
                continue
            k = kind[0]
            f = N.before[k][0]
            used = {x for y in N.evs(st, "ser") for x in [y[2]]}
            vals = {a for i in range(1, n.a[0]) for a in atoms(fold(st, N.V.aget(st, o.ret, I(i), "i8")))}
            m = described(N, k, used, vals)
            if m:
                C.fail("front", inst, N.where, "the %s message sent %s" % (k, m), st.trail)
            if took not in (None, k):
                C.fail("front", inst, N.where, "which message comes first depends on its contents", st.trail)
            took = k
        # next
        N = Q(C)
        fill(N, pat)
        for o in go(N, "buzzoutmsg_queue_next", [N.vm]):
            st = o.st
            C.ob("front", inst)
            if not clean(C, "front", inst, N, st):
                continue
            want = {took: N.before[took][1:]} if took else {}
            if not same(C, "front", inst + ", next", N, st, want):
                continue
            if took in ("VSTIG_PUT", "VSTIG_QUERY"):
                for k in ("VSTIG_PUT", "VSTIG_QUERY"):
                    for i in range(pat[k]):
                        gone = k == took and i == 0
                        g = st.ghost.get(("d", mk("outvsd", (k, i)), mk("ikey", mk("mkv", k, str(i), width=32))))
                        if g != ("no" if gone else "yes"):
                            C.fail("front", inst, N.where, "the duplicate index %s" % ("still knows the message that is gone" if gone else "forgets a message that is still queued"), st.trail)
        N = Q(C)
        fill(N, pat)
        for o in go(N, "buzzoutmsg_queue_size", [N.vm]):
            C.ob("front", inst)
            if fold(o.st, o.ret) is not I(total):
                C.fail("front", inst, N.where, "the size is %s instead of %d" % (show(o.ret), total), o.st.trail)


def described(N, k, used, vals):
    """None when what was written describes the front message of kind k only"""
    if k == "BROADCAST":
        w, o = {mk("obj", "topic0"), mk("obj", "bcval0")}, set()
    elif k == "SWARM_LIST":
        w, o = set(), {mk("lsid", 0, j, width=16) for j in range(2)}
    elif k in ("SWARM_JOIN", "SWARM_LEAVE"):
        w, o = set(), {mk("jsid", k, 0, width=16)}
    else:
        w = {mk("obj", "mkey%s0" % k), mk("obj", "mdata%s0" % k)}
        o = {mk(x, k, "0", width=16) for x in ("mvid", "mts", "mrob")}
    if used != w:
        return "carries %s" % sorted(show(x) for x in used)
    syms = {a for a in vals if a.op in ("lsid", "jsid", "mvid", "mts", "mrob")}
    if syms != o:
        return "carries %s instead of %s" % (sorted(show(x) for x in syms), sorted(show(x) for x in o))
    return None


def period(C):
    fn = "buzzvm_process_outmsgs"
    for n in (0, 1, 2):
        for empty in (True, False):
            N = Safe(C)
            e, st0 = N.e, N.st
            c = I(n) if n < 2 else mk("swb", width=16)
            if n == 2:
                st0.facts[c] = (2, 10, frozenset())
            e.store(st0, addc(N.vm, N.v.VM["swarmbroadcast"]), c, "i16")
            e.store(st0, addc(mk("vmf", "swarms"), N.v.DD["size"]), ZERO if empty else mk("nsw", width="u"), "i32")
            if not empty:
                st0.facts[mk("nsw", width="u")] = (1, 65535, frozenset())
            inst = "counter %s, %s" % (n if n < 2 else "above 1", "no swarm known" if empty else "swarms known")
            for o in N.run(fn):
                C.ob("period", inst)
                st = o.st
                ls = N.evs(st, "out_list")
                due = n < 2 and not empty
                if len(ls) != (1 if due else 0) or due and ls[0][2] is not mk("vmf", "swarms"):
                    C.fail("period", inst, N.where, "announces the swarms %d times" % len(ls), st.trail)
                got = fold(st, e.load(st, addc(N.vm, N.v.VM["swarmbroadcast"]), "i16"))
                want = I(10) if due else ZERO if n < 2 else addc(c, -1)
                if got is not want:
                    C.fail("period", inst, N.where, "the counter becomes %s instead of %s" % (show(got), show(want)), st.trail)


def incoming(C):
    # append
    fn = "buzzinmsg_queue_append"
    rid, p = mk("rid", width=16), mk("pl")
    D = mk("vmf", "inmsgs")
    for n in (None, 1, 2):
        N = Safe(C)
        N.e.unroll = 8
        N.st.facts[p] = (1, INF, frozenset())
        da = mk("inq")
        N.st.facts[da] = (1, INF, frozenset())
        if n is None:
            N.st.ghost[("d", D, rid)] = "no"
        else:
            N.st.ghost[("d", D, rid)] = "yes"
            c = N.dd.cell(D, rid)
            N.st.facts[c] = (1, INF, frozenset())
            N.e.store(N.st, c, da, "ptr")
            N.V.darray(da, I(n), 8)
            for i in range(n):
                N.V.arrput(da, I(i), mk("opl", i))
        inst = "message of a robot with %s queued" % (n or "none")
        for o in N.run(fn, [N.vm, rid, p]):
            st = o.st
            C.ob("incoming", inst)
            if st.ghost.get(("d", D, rid)) != "yes":
                C.fail("incoming", inst, N.where, "the message is lost", st.trail)
                continue
            q = st.simp(N.e.load(st, N.dd.cell(D, rid, st), "ptr"))
            z = N.V.asize(st, q)
            got = [N.V.aget(st, q, I(i)) for i in range(z.a[0])] if z.op == "i" else None
            w = [mk("opl", i) for i in range(n or 0)] + [p]
            if got != w:
                C.fail("incoming", inst, N.where, "the queue of the robot is %s" % (got and [show(x) for x in got]), st.trail)
            if [x for x in N.evs(st, "dset", "dremove") if x[2] is not rid]:
                C.fail("incoming", inst, N.where, "changes the queue of another robot", st.trail)
    # extract
    fn = "buzzinmsg_queue_extract"
    DD = fields(C, "buzzdict_s")
    EN = fields(C, "buzzdict_entry_s")
    nb = 3
    for bits in range(1, 8):
        for n in (1, 2):
            N = Safe(C)
            e, st0 = N.e, N.st
            e.unroll = 8
            arr = mk("buckets")
            st0.facts[arr] = (1, INF, frozenset())
            e.store(st0, addc(D, DD["buckets"]), arr, "ptr")
            e.store(st0, addc(D, DD["num_buckets"]), I(nb), "i32")
            e.store(st0, addc(D, N.v.DD["size"]), mk("nin", width="u"), "i32")
            st0.facts[mk("nin", width="u")] = (1, 65535, frozenset())
            qs = {}
            for i in range(nb):
                if not bits >> i & 1:
                    e.store(st0, addc(arr, 8 * i), ZERO, "ptr")
                    continue
                b = mk("bucket", i)
                st0.facts[b] = (1, INF, frozenset())
                e.store(st0, addc(arr, 8 * i), b, "ptr")
                N.V.darray(b, ONE, 16)
                kp, dp, q = mk("bkey", i), mk("bdat", i), mk("bq", i)
                for t in (kp, dp, q):
                    st0.facts[t] = (1, INF, frozenset())
                e.store(st0, addc(mk("dadata", b), EN["key"]), kp, "ptr")
                e.store(st0, addc(mk("dadata", b), EN["data"]), dp, "ptr")
                r = mk("brid", i, width=16)
                e.store(st0, kp, r, "i16")
                e.store(st0, dp, q, "ptr")
                N.V.darray(q, I(n), 8)
                for j in range(n):
                    N.V.arrput(q, I(j), mk("bpl", i, j))
                qs[i] = (r, q)
                st0.ghost[("d", D, r)] = "yes"
            rp, pp = mk("ridp"), mk("plp")
            st0.facts[rp] = st0.facts[pp] = (1, INF, frozenset())
            inst = "%d queued messages per robot, robots in buckets %s" % (n, sorted(qs))
            for o in N.run(fn, [N.vm, rp, pp]):
                st = o.st
                C.ob("incoming", inst)
                r, x = fold(st, e.load(st, rp, "i16")), st.simp(e.load(st, pp, "ptr"))
                hit = [i for i in qs if qs[i][0] is r]
                if len(hit) != 1 or x is not mk("bpl", hit[0], 0):
                    C.fail("incoming", inst, N.where, "extracts message %s of robot %s" % (show(x), show(r)), st.trail)
                    continue
                i = hit[0]
                gone = [y[2] for y in N.evs(st, "dremove")]
                if N.evs(st, "dset") or gone != ([r] if n == 1 else []):
                    C.fail("incoming", inst, N.where, "the queues removed are those of %s" % [show(y) for y in gone], st.trail)
                for j in qs:
                    if j in hit and n == 1:
                        continue
                    q = qs[j][1]
                    z = N.V.asize(st, q)
                    got = [N.V.aget(st, q, I(y)) for y in range(z.a[0])] if z.op == "i" else None
                    if got != [mk("bpl", j, y) for y in range(1 if j == i else 0, n)]:
                        C.fail("incoming", inst, N.where, "the queue of a robot becomes %s" % (got and [show(y) for y in got]), st.trail)
                if st.ev(icmp("eq", o.ret, ZERO)) is not False:
                    C.fail("incoming", inst, N.where, "reports that nothing was extracted", st.trail)
    N = Safe(C)
    N.e.store(N.st, addc(D, N.v.DD["size"]), ZERO, "i32")
    rp, pp = mk("ridp"), mk("plp")
    N.st.facts[rp] = N.st.facts[pp] = (1, INF, frozenset())
    for o in N.run(fn, [N.vm, rp, pp]):
        C.ob("incoming", "nothing queued")
        if o.st.ev(icmp("eq", o.ret, ZERO)) is not True or N.evs(o.st, "dremove", "da_remove", "dset"):
            C.fail("incoming", "nothing queued", N.where, "an extraction from empty queues succeeds", o.st.trail)


MINIMA = {"broadcast": 3, "join-leave": 40, "list": 30, "stigmergy": 30, "front": 190, "period": 6, "incoming": 16}
