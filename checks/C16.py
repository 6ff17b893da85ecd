"""Virtual stigmergy merge. buzzvm_process_inmsgs is interpreted abstractly on a PUT and on a QUERY message with symbolic id, key, value,
timestamp and robot, against a symbolic local state (stigmergy known or not, element known or not, any timestamps). On
every path the facts collected select one row of the merge decision table, whose effects (element stored, message
propagated, conflict managers called, blocks released) must be exactly the ones performed. The default conflict rule and
the calls of user-defined managers are interpreted and compared the same way."""
from bzsa.terms import *
from bzsa.absint import INF
from bzsa.natenv import Msg, Safe, fields
from bzsa.vmspec import fold, feasible

W = "buzzvm.c:buzzvm_process_inmsgs"


def setup(C, kind):
    N = Msg(C)
    v, e, st = N.v, N.e, N.st
    N.id, N.tV, N.rV = mk("vsid", width=16), mk("tsV", width=16), mk("robV", width=16)
    N.k = N.V.obj("key", v.INT)
    e.store(st, addc(N.k, v.vi), mk("keyval", width=32), "i32")
    N.x = N.V.obj("value")
    ty = e.load(st, N.x, "i16")
    st.facts[ty] = (0, 6, frozenset())
    N.payload([(I(N.MT[kind]), 1), (N.id, 2), N.k, N.x, (N.tV, 2), (N.rV, 2)])
    N.key = mk("ikey", mk("keyval", width=32))
    N.newelem = None

    def conflict(e, st, args, fn, ins):
        l, r = st.simp(args[3]), st.simp(args[4])
        st.ev_add("conflict", st.simp(args[1]), N.dd.canonkey(e, st, args[2]), l, N.elem(st, r))
        if ("freed", l) in st.ghost or ("freed", r) in st.ghost:
            st.ev_add("uaf", l, "conflict manager", "passed on")
        # the manager is script code: everything reachable from scripts is replaced
        st.ghost[("freed", N.vs)] = st.ghost[("freed", N.l)] = True
        vd = mk("vmf", "vstigs")
        st.ghost[("stalecell", N.vcell)] = True
        N.dd.bump(st, vd)
        outs = []
        for c in (True, False):
            s1 = st.copy()
            if c:
                ce = e.new_obj(s1, e.site(fn, ins), kind="c")
                for f, t, w in (("data", N.V.obj("cdata"), "ptr"), ("timestamp", mk("tsC", width=16), "i16"), ("robot", mk("robC", width=16), "i16")):
                    e.store(s1, addc(ce, N.VE[f]), t, w)
                s1.ghost[("block", ce)] = True
            else:
                ce = ZERO
            # gone
            s2 = s1.copy()
            s2.ghost[("d", vd, N.id)] = "no"
            s2.ev_add("c_after", "stigmergy gone", ce)
            outs.append((s2, ce))
            for el in ("element gone", "present"):
                s3 = s1.copy()
                s3.ghost[("d", vd, N.id)] = "yes"
                cell = N.dd.cell(vd, N.id, s3)
                vs2, d2, l2 = mk("vstig", "after"), mk("vsdata", "after"), mk("velem", "after")
                for t in (cell, vs2, d2, l2):
                    s3.facts[t] = (1, INF, frozenset())
                e.store(s3, cell, vs2, "ptr")
                e.store(s3, addc(vs2, N.VS["data"]), d2, "ptr")
                s3.ghost[("dks", d2)] = 8
                if el == "present":
                    s3.ghost[("d", d2, N.key)] = "yes"
                    c2 = N.dd.cell(d2, N.key, s3)
                    s3.facts[c2] = (1, INF, frozenset())
                    e.store(s3, c2, l2, "ptr")
                    for f, w in (("data", "ptr"), ("timestamp", "i16"), ("robot", "i16")):
                        e.store(s3, addc(l2, N.VE[f]), e.load(s3, addc(N.l, N.VE[f]), w), w)
                else:
                    s3.ghost[("d", d2, N.key)] = "no"
                s3.ev_add("c_after", el, ce)
                outs.append((s3, ce))
        return outs

    def lost(e, st, args, fn, ins):
        el = st.simp(args[3])
        if ("freed", el) in st.ghost:
            st.ev_add("uaf", el, "conflict-lost manager", "passed on")
        d, t, r = N.elem(st, el)
        st.ev_add("lost", st.simp(args[1]), N.dd.canonkey(e, st, args[2]), N.src(st, d), t, r)
        # the manager is script code
        for g in [g for g in st.ghost if isinstance(g, tuple) and g[0] == "stored"]:
            st.ghost[("freed", g[1])] = True
        return st, None

    def stale(e, fn, ins, st, a):
        N.touch(st, a, fn, ins, "read")
        if ("stalecell", st.simp(a)) in st.ghost:
            st.ev_add("uaf", a, "%s:%s" % (fn.file, ins.get("line")), "read")
    e.hooks["load"] = stale
    e.models["buzzvstig_onconflict_call"] = conflict
    e.models["buzzvstig_onconflictlost_call"] = lost
    return N


def table(N, kind, have):
    """[(row, conditions, effects)], effects: list of ('store', elem) / ('out', type, elem) / ('conflict',)"""
    v = ("V",)
    P, Q = N.MT["VSTIG_PUT"], N.MT["VSTIG_QUERY"]
    tL, rL = mk("ts", "l", width=16), mk("rob", "l", width=16)
    nil = icmp("eq", N.e.load(N.st, N.x, "i16"), I(N.v.NIL))
    older = icmp("slt", tL, N.tV)
    newer = icmp("sgt", tL, N.tV)
    same = icmp("eq", rL, N.rV)
    if have == "no stigmergy":
        return [("unknown stigmergy", [], [] if kind == "VSTIG_PUT" else [("out", Q, "V")])]
    if have == "no element":
        put = [("store", "V"), ("out", P, "V")]
        if kind == "VSTIG_PUT":
            return [("unknown element", [], put)]
        return [("unknown element queried with nil", [(nil, True)], [("out", Q, "V")]),
                ("unknown element queried with a value", [(nil, False)], put)]
    return [("remote newer", [(older, True)], [("store", "V"), ("out", P, "V")]),
            ("remote older", [(newer, True)], [] if kind == "VSTIG_PUT" else [("out", P, "L")]),
            ("same timestamp, same robot", [(older, False), (newer, False), (same, True)], []),
            ("same timestamp, different robot", [(older, False), (newer, False), (same, False)], [("conflict",)])]


def effects(N, st):
    E = {"V": (N.x, N.tV, N.rV), "L": (mk("obj", "data_l"), mk("ts", "l", width=16), mk("rob", "l", width=16)),
         "C": (mk("obj", "cdata"), mk("tsC", width=16), mk("robC", width=16))}

    def name(t):
        for n, x in E.items():
            if all(fold(st, p) is fold(st, q) for p, q in zip(x, t)):
                return n
        return "(%s)" % ", ".join(show(p) for p in t)
    r = []
    for x in N.evs(st, "vset", "vremove", "out_vs", "conflict", "lost", "ccall", "out_bc", "out_jl", "out_list", "m_join", "m_leave",
                   "m_refresh", "seterror", "vstig_gone"):
        if x[0] == "vset":
            n = name((N.src(st, x[4]), x[5], x[6]))
            r.append(("store", n) if x[2] is N.key else ("store under another key", n))
        elif x[0] == "out_vs":
            n = name(x[4:7])
            ok = fold(st, x[2]) is fold(st, N.id) and N.dd.canonkey(N.e, st, x[3]) is N.key
            r.append(("out", x[1].a[0] if x[1].op == "i" else show(x[1]), n) if ok else ("message about another entry", n))
        elif x[0] == "conflict":
            ok = x[1] is N.vs and x[2] is N.key and x[3] is N.l and name(x[4]) == "V"
            r.append(("conflict",) if ok else ("conflict manager called with wrong values",))
        elif x[0] == "lost":
            r.append(("lost", name(x[3:6])) if x[2] is N.key else ("conflict-lost manager called with a wrong key",))
        else:
            r.append((x[0],))
    return sorted(r, key=str)


def merge(C):
    for kind in ("VSTIG_PUT", "VSTIG_QUERY"):
        for have in ("no stigmergy", "no element", "element"):
            N = setup(C, kind)
            st = N.st
            vd = mk("vmf", "vstigs")
            N.l = mk("velem", "l")
            N.vs, N.vcell = mk("vstig", 0), N.dd.cell(vd, N.id)
            if have == "no stigmergy":
                st.ghost[("d", vd, N.id)] = "no"
            else:
                N.vstig(N.id)
                if have == "element":
                    N.velem(mk("vsdata", 0), N.key)
                else:
                    st.ghost[("d", mk("vsdata", 0), N.key)] = "no"
            rows = table(N, kind, have)
            seen = set()
            for o in N.run("buzzvm_process_inmsgs"):
                st = o.st
                for row, conds, want in rows:
                    s2 = feasible(st, conds)
                    if s2 is None:
                        continue
                    seen.add(row)
                    inst = "%s, %s" % (kind, row)
                    after = N.evs(st, "c_after")
                    want = list(want)
                    subs = [(s2, "", want)]
                    if after:
                        how, c = after[0][1], after[0][2]
                        inst += ", %s%s" % (how, "" if c is not ZERO else ", no winner")
                        if c is not ZERO and how == "present":
                            me, rC, rL = N.V.robot, mk("robC", width=16), mk("rob", "l", width=16)
                            lostc = [(icmp("eq", rC, me), False), (icmp("eq", rL, me), True)]
                            w = want + [("store", "C"), ("out", N.MT["VSTIG_PUT"], "C")]
                            subs = []
                            for s3, nm, ww in ((feasible(s2, lostc), ", this robot lost", w + [("lost", "L")]),
                                               (feasible(s2, lostc[:1] and [(icmp("eq", rC, me), True)]), ", this robot won", w),
                                               (feasible(s2, [(icmp("eq", rL, me), False)]), ", other robots", w)):
                                if s3 is not None:
                                    subs.append((s3, nm, ww))
                    for s3, nm, ww in subs:
                        C.ob("merge", inst + nm)
                        got = effects(N, s3)
                        if after and after[0][1] != "present":
                            # the element vanished under the manager: only safety is required
                            got = ww = []
                        if got != sorted(ww, key=str):
                            C.fail("merge", inst + nm, W, "expected %s, found %s" % (fmt(N, ww), fmt(N, got)), st.trail)
                    for u in N.uaf(st):
                        C.fail("memory", inst, u[2], "%s is %s after it was released" % (show(u[1]), u[3]), st.trail)
                    C.ob("memory", inst)
                    fr = [x[1] for x in N.evs(st, "free")]
                    stored = [x[3] for x in N.evs(st, "vset")]
                    for b in stored:
                        if b in fr:
                            C.fail("memory", inst, W, "an element that is stored is freed", st.trail)
                    if len(stored) != len(set(stored)):
                        C.fail("memory", inst, W, "one element is stored twice", st.trail)
                    C.ob("vm-state", inst)
                    if N.state(st) is not I(N.v.READY) or N.depth(st) is not ZERO:
                        C.fail("vm-state", inst, W, "processing the message leaves state %s and stack depth %s" % (show(N.state(st)), show(N.depth(st))), st.trail)
                    n = len([x for x in N.evs(st, "da_destroy") if x[1] is N.buf])
                    if n != 1:
                        C.fail("vm-state", inst, W, "the message is released %d times" % n, st.trail)
            for row, _, _ in rows:
                if row not in seen:
                    C.fail("merge", "%s, %s" % (kind, row), W, "no path handles this case", ())


def fmt(N, ef):
    names = {v: k for k, v in N.MT.items()}
    r = []
    for x in ef:
        r.append("send %s of %s" % (names.get(x[1], x[1]), x[2]) if x[0] == "out" else " ".join(str(y) for y in x))
    return ", ".join(r) or "no effect"


def two(C, man):
    """two elements and a stigmergy for the manager functions"""
    N = Safe(C, s0=mk("n0", "stack", width="u"))
    N.e.recursion = 1
    vs, data = N.vstig(mk("vsid", width=16))
    els = []
    for n in ("l", "r"):
        el = N.velem(data, mk("dummykey", n), n)
        ty = N.e.load(N.st, mk("obj", "data_" + n), "i16")
        N.st.facts[ty] = (0, 6, frozenset())
        els.append(el)
    fld = {"lost": "onconflictlost", "conflict": "onconflict"}
    N.cl = {}
    for f in ("onconflict", "onconflictlost"):
        c = N.V.obj("cl_" + f, N.v.CLOSURE)
        N.cl[f] = c
        N.e.store(N.st, addc(vs, N.VS[f]), c if man else ZERO, "ptr")
    N.k = N.V.obj("key")
    return N, vs, els


def tab(N, st, o):
    """field name -> value object stored in a table made by the code under analysis"""
    d = st.simp(N.e.load(st, addc(o, N.v.vt), "ptr"))
    r = {}
    for x in N.evs(st, "dset"):
        if x[1] is d:
            r[x[2]] = x[3]
    return r


def name_of(k):
    if k.op == "skey":
        k = k.a[0]
    if k.op == "sid" and k.a[0].op == "str":
        return k.a[0].a[0].decode()
    return show(k)


def descr(N, st, o):
    """{field: comparable} of an element table"""
    r = {}
    for k, x in tab(N, st, o).items():
        n = name_of(k)
        r[n] = N.src(st, x) if n == "data" else (N.V.type_of(st, x), fold(st, N.V.ival(st, x)))
    return r


def same_elem(N, st, o, want):
    """the table o describes the element: nil data is a missing entry, a function becomes a method of the table (tput)"""
    got = descr(N, st, o)
    ty = N.V.type_of(st, want["data"])
    if ty is I(N.v.NIL):
        want = {k: x for k, x in want.items() if k != "data"}
    elif ty is I(N.v.CLOSURE) and got.get("data") is not want["data"]:
        x = got.get("data")
        ref = addc(want["data"], N.v.cl["ref"])
        if x is not None and N.V.type_of(st, x) is ty and N.e.load(st, addc(x, N.v.cl["ref"]), "i32") is N.e.load(st, ref, "i32"):
            got["data"] = want["data"]
    return got == want


def managers(C):
    WV = "buzzvstig.c:buzzvstig_onconflict_call"
    # default rule
    N, vs, (l, r) = two(C, False)
    tl, tr = (icmp("eq", N.e.load(N.st, mk("obj", "data_" + n), "i16"), I(N.v.NIL)) for n in ("l", "r"))
    rl, rr = mk("rob", "l", width=16), mk("rob", "r", width=16)
    hi = icmp("sgt", rl, rr)
    N.st.assume(icmp("eq", rl, rr), False)
    rows = [("both set, local robot higher", [(tl, False), (tr, False), (hi, True)], "l"), ("both set, remote robot higher", [(tl, False), (tr, False), (hi, False)], "r"),
            ("both nil, local robot higher", [(tl, True), (tr, True), (hi, True)], "l"), ("both nil, remote robot higher", [(tl, True), (tr, True), (hi, False)], "r"),
            ("only the remote is nil", [(tl, False), (tr, True)], "l"), ("only the local is nil", [(tl, True), (tr, False)], "r")]
    seen = set()
    for o in N.run("buzzvstig_onconflict_call", [N.vm, vs, N.k, l, r]):
        for row, conds, win in rows:
            s2 = feasible(o.st, conds)
            if s2 is None:
                continue
            seen.add(row)
            C.ob("default-rule", row)
            ret = s2.simp(o.ret)
            if ret is ZERO:
                C.fail("default-rule", row, WV, "no winner", o.st.trail)
                continue
            d, t, rb = N.elem(s2, ret)
            if ret in (l, r):
                C.fail("default-rule", row, WV, "the winner is not a new element although the caller releases it", o.st.trail)
            if N.src(s2, d) is not mk("obj", "data_" + win) or t is not fold(s2, mk("ts", win, width=16)) or rb is not fold(s2, mk("rob", win, width=16)):
                C.fail("default-rule", row, WV, "the winner is (%s, %s, %s)" % (show(N.src(s2, d)), show(t), show(rb)), o.st.trail)
            if N.state(s2) is not I(N.v.READY) or N.depth(s2) is not N.base:
                C.fail("default-rule", row, WV, "the stack or the VM state changes", o.st.trail)
    for row, _, _ in rows:
        if row not in seen:
            C.fail("default-rule", row, WV, "no path decides this case", ())
    # user-defined conflict manager
    N, vs, (l, r) = two(C, True)

    def elems(st, n):
        return {"robot": (I(N.v.INT), mk("rob", n, width=16)), "timestamp": (I(N.v.INT), mk("ts", n, width=16)), "data": mk("obj", "data_" + n)}
    snap = []

    def onccall(st, c, a):
        C.ob("manager-call", "onconflict(key, local, remote)")
        inst = "onconflict(key, local, remote)"
        if c is not N.cl["onconflict"] or len(a) != 3 or a[0] is not N.k:
            C.fail("manager-call", inst, WV, "called as %s(%s)" % (show(c), ", ".join(show(x) for x in a)), st.trail)
            return
        for x, n in ((a[1], "l"), (a[2], "r")):
            if not same_elem(N, st, x, elems(st, n)):
                C.fail("manager-call", inst, WV, "the %s table holds %s" % ({"l": "local", "r": "remote"}[n], sorted(descr(N, st, x))), st.trail)
        # whatever the script does, both elements may be gone afterwards
        for b in (l, vs):
            st.ghost[("freed", b)] = True
    N.onccall = onccall
    N.e.recursion = 1
    kinds = set()
    for o in N.run("buzzvstig_onconflict_call", [N.vm, vs, N.k, l, r]):
        st = o.st
        calls = N.evs(st, "ccall")
        ret = st.simp(o.ret)
        if len(calls) != 1:
            C.fail("manager-call", "once", WV, "the manager is called %d times" % len(calls), st.trail)
            continue
        for u in N.uaf(st):
            C.fail("memory", "manager", u[2], "%s is %s after the manager may have released it" % (show(u[1]), u[3]), st.trail)
        if N.evs(st, "callfail"):
            kinds.add("fails")
            C.ob("manager-result", "manager fails")
            if ret is not ZERO:
                C.fail("manager-result", "manager fails", WV, "an element is returned although the manager failed", st.trail)
            continue
        if N.state(st) is I(N.v.READY) and N.depth(st) is not N.base:
            C.fail("manager-result", "stack", WV, "the stack depth changes by %s" % show(sub(N.depth(st), N.base)), st.trail)
        res = N.evs(st, "result")[0][1]
        ty = N.V.type_of(st, res)
        istab = st.ev(icmp("eq", ty, I(N.v.TABLE)))
        d = st.simp(N.e.load(st, addc(res, N.v.vt), "ptr"))
        got = {}
        for x in N.evs(st, "dget"):
            if x[1] is d:
                got[name_of(x[2])] = st.simp(N.e.load(st, N.dd.cell(d, x[2], st), "ptr")) if x[3] else None
        rob = got.get("robot")
        isint = rob is not None and st.ev(icmp("eq", N.V.type_of(st, rob), I(N.v.INT)))
        if istab is True and isint is True:
            kinds.add("winner")
            C.ob("manager-result", "winner")
            if ret is ZERO:
                C.fail("manager-result", "winner", WV, "the returned winner is ignored", st.trail)
                continue
            dd, t, rb = N.elem(st, ret)
            if t is not mk("ts", "l", width=16):
                C.fail("manager-result", "winner", WV, "the winner gets timestamp %s" % show(t), st.trail)
            wr = N.V.ival(st, rob)
            if fold(st, rb) not in (fold(st, wr), fold(st, mk("trunc", 16, wr, width=16))) and not (rb.op == "trunc" and wr in rb.a):
                C.fail("manager-result", "winner", WV, "the winner gets robot %s" % show(rb), st.trail)
            if "data" not in got:
                C.fail("manager-result", "winner", WV, "the data of the returned table is not used", st.trail)
            elif got["data"] is None:
                if N.V.type_of(st, dd) is not I(N.v.NIL):
                    C.fail("manager-result", "winner", WV, "missing data does not become nil", st.trail)
            elif dd is not got["data"]:
                C.fail("manager-result", "winner", WV, "the winner gets data %s" % show(dd), st.trail)
        else:
            kinds.add("nothing")
            C.ob("manager-result", "no valid winner")
            if ret is not ZERO:
                C.fail("manager-result", "no valid winner", WV, "a result that is not a table with a robot id still yields an element", st.trail)
    for k in ("fails", "winner", "nothing"):
        if k not in kinds:
            C.fail("manager-result", k, WV, "no path handles this case", ())
    # conflict-lost manager
    WL = "buzzvstig.c:buzzvstig_onconflictlost_call"
    for man in (False, True):
        N, vs, (l, r) = two(C, man)
        inst = "onconflictlost(key, local)"

        def onccall(st, c, a):
            if c is not N.cl["onconflictlost"] or len(a) != 2 or a[0] is not N.k or not same_elem(N, st, a[1], elems(st, "l")):
                C.fail("manager-call", inst, WL, "called as %s with %d arguments" % (show(c), len(a)), st.trail)
        N.onccall = onccall
        for o in N.run("buzzvstig_onconflictlost_call", [N.vm, vs, N.k, l]):
            st = o.st
            C.ob("manager-call", inst)
            n = len(N.evs(st, "ccall"))
            if n != (1 if man else 0):
                C.fail("manager-call", inst, WL, "the manager is called %d times" % n, st.trail)
            if not N.evs(st, "callfail") and N.depth(st) is not N.base:
                C.fail("manager-call", inst, WL, "the stack depth changes by %s" % show(sub(N.depth(st), N.base)), st.trail)


def run(C):
    merge(C)
    managers(C)
    C.assume("16-bit timestamps do not wrap around")


MINIMA = {"merge": 14, "memory": 14, "vm-state": 14, "default-rule": 6, "manager-call": 3, "manager-result": 3}
