"""Swarm membership. Every swarm operation is interpreted abstractly from symbolic machine states (any ids, known and unknown swarms, member or
not, any argument types and counts). Per path, the final membership entry, the announced JOIN/LEAVE messages, the returned value and the
error must be the ones of the operation's definition; no other swarm's entry is touched and refused operations have no effect."""
from bzsa.terms import *
from bzsa.absint import INF
from bzsa.natenv import Fun, arity, badself, nottype, expect_error
from bzsa.vmspec import fold, feasible

SW = mk("vmf", "swarms")
METHODS = ("others", "join", "leave", "in", "select", "exec")


def swarm_table(N, st, o, idt):
    """message when o is not the table of swarm idt"""
    v, e = N.v, N.e
    if o is None or N.V.type_of(st, o) is not I(v.TABLE):
        return "does not return a table"
    d = st.simp(e.load(st, addc(o, v.vt), "ptr"))
    got = {}
    for x in N.evs(st, "dset"):
        if x[1] is d:
            got[x[2]] = x[3]
    x = got.get(N.skey("id"))
    if x is None or N.V.type_of(st, x) is not I(v.INT) or fold(st, N.V.ival(st, x)) is not fold(st, idt):
        return "the id of the returned swarm is %s" % (show(N.V.ival(st, x)) if x is not None else "missing")
    for m in METHODS:
        x = got.get(N.skey(m))
        if x is None or N.V.type_of(st, x) is not I(v.CLOSURE):
            return "method '%s' is missing" % m
        ref, nat = st.simp(e.load(st, addc(x, v.cl["ref"]), "i32")), fold(st, e.load(st, addc(x, v.cl["isnative"]), "i8"))
        if ref is not mk("fid", mk("fn", "buzzswarm_" + m), width="u") or nat is not ZERO:
            return "method '%s' is bound to %s" % (m, show(ref))
    return None


def effects(C, rule, inst, N, o, member, msgs, ids):
    """member: {id term: final byte or None=untouched}"""
    st = o.st
    for x in N.effects(st):
        if x[0] == "out_jl" or x[0] == "dset" and x[1] is SW and x[2] in ids:
            continue
        C.fail(rule, inst, N.where, "touches something else: %s %s" % (x[0], show(x[2]) if len(x) > 2 and isinstance(x[2], T) else ""), st.trail)
    for i, want in member.items():
        got = N.dictval(st, SW, i, "i8")
        if isinstance(got, str) or (bool_of(st, got) is None or bool_of(st, got) != want if isinstance(want, bool) else got is not want):
            C.fail(rule, inst, N.where, "membership is %s afterwards instead of %s" % (got if isinstance(got, str) else show(got), want if not isinstance(want, T) else show(want)), st.trail)
        elif isinstance(want, bool) and not (got.op == "i" and got.a[0] in (0, 1)):
            C.fail(rule, inst, N.where, "membership is stored as %s" % show(got), st.trail)
    got = N.jl(st)
    if got != [(N.MT[k], fold(st, i)) for k, i in msgs]:
        names = {t: k for k, t in N.MT.items()}
        C.fail(rule, inst, N.where, "announces %s instead of %s" % ([(names.get(k, k), show(i)) for k, i in got], [(k, show(i)) for k, i in msgs]), st.trail)


def bool_of(st, t):
    return st.ev(icmp("eq", t, ZERO)) is False if st.ev(icmp("eq", t, ZERO)) is not None else None


def ok(C, rule, inst, N, o, nil=False):
    C.ob(rule, inst)
    k, x = N.result(o)
    if k != "ok":
        C.fail(rule, inst, N.where, "expected success, found %s %s" % (k, x if isinstance(x, str) else show(x)), o.st.trail)
        return None, False
    return x, True


def nonempty(C, rule, inst, N, outs):
    if not outs:
        C.fail(rule, inst, N.where, "no path handles this case", ())
    return outs


def run(C):
    v = C.env
    ones = (("in", ONE), ("out", ZERO))
    # create
    fn = "buzzswarm_create"
    arity(C, "arity", fn, (1,), selfid=False)
    N = Fun(C, 1, False)
    nottype(N, 1, [v.INT])
    for o in N.run(fn):
        expect_error(C, "types", fn + " with an id that is not an int", N, o, ("TYPE",))
    for nm, val in (("unknown", None),) + ones:
        N = Fun(C, 1, False)
        x = N.intarg(1, "newid")
        N.membership(x, val)
        inst = "%s, swarm %s" % (fn, nm)
        for o in nonempty(C, "create", inst, N, N.run(fn)):
            r, good = ok(C, "create", inst, N, o)
            if good:
                effects(C, "create", inst, N, o, {x: val is ONE}, [], [x])
                m = swarm_table(N, o.st, r, x)
                if m:
                    C.fail("create", inst, N.where, m, o.st.trail)
    # join / leave / select / in
    for fn, na in (("buzzswarm_join", 0), ("buzzswarm_leave", 0), ("buzzswarm_in", 0), ("buzzswarm_select", 1), ("buzzswarm_exec", 1), ("buzzswarm_others", 1)):
        arity(C, "arity", fn, (na,))

        def prep(N, na=na):
            if na:
                N.intarg(1, "cond")
        badself(C, "types", fn, na, prep)
        N = Fun(C, na)
        if na and fn != "buzzswarm_exec":
            N.intarg(1, "cond")
        elif na:
            N.arg(1, N.V.obj("cl", v.CLOSURE))
        N.membership(N.id, None)
        for o in nonempty(C, "unknown-swarm", fn, N, N.run(fn)):
            expect_error(C, "unknown-swarm", fn, N, o, ("SWARM",))
    for fn, want, msg in (("buzzswarm_join", True, "SWARM_JOIN"), ("buzzswarm_leave", False, "SWARM_LEAVE")):
        for nm, val in ones:
            N = Fun(C, 0)
            N.membership(N.id, val)
            inst = "%s when %s" % (fn, nm)
            for o in nonempty(C, "membership", inst, N, N.run(fn)):
                r, good = ok(C, "membership", inst, N, o)
                if good:
                    effects(C, "membership", inst, N, o, {N.id: want}, [(msg, N.id)], [N.id])
    for nm, val in ones:
        N = Fun(C, 0)
        N.membership(N.id, val)
        inst = "buzzswarm_in when %s" % nm
        for o in nonempty(C, "membership", inst, N, N.run("buzzswarm_in")):
            r, good = ok(C, "membership", inst, N, o)
            if good:
                effects(C, "membership", inst, N, o, {N.id: val is ONE}, [], [])
                if r is None or N.V.type_of(o.st, r) is not I(v.INT) or fold(o.st, N.V.ival(o.st, r)) is not val:
                    C.fail("membership", inst, N.where, "does not return %s" % show(val), o.st.trail)
    N = Fun(C, 1)
    N.membership(N.id, ZERO)
    nottype(N, 1, [v.INT])
    for o in N.run("buzzswarm_select"):
        expect_error(C, "types", "buzzswarm_select with a condition that is not an int", N, o, ("TYPE",))
    for nm, val in ones:
        N = Fun(C, 1)
        N.membership(N.id, val)
        c = N.intarg(1, "cond", None)
        seen = set()
        for o in N.run("buzzswarm_select"):
            base = o.st
            for w in (True, False):
                s2 = feasible(base, [(icmp("eq", c, ZERO), not w)])
                if s2 is None:
                    continue
                seen.add(w)
                o.st = s2
                inst = "buzzswarm_select(%s) when %s" % ("true" if w else "false", nm)
                r, good = ok(C, "membership", inst, N, o)
                if good:
                    effects(C, "membership", inst, N, o, {N.id: w}, [("SWARM_JOIN" if w else "SWARM_LEAVE", N.id)], [N.id])
        if seen != {True, False}:
            C.fail("membership", "buzzswarm_select", N.where, "no path for some condition values", ())
    # others
    fn = "buzzswarm_others"
    N = Fun(C, 1)
    N.membership(N.id, ZERO)
    nottype(N, 1, [v.INT])
    for o in N.run(fn):
        expect_error(C, "types", fn + " with an id that is not an int", N, o, ("TYPE",))
    for nm, val in ones:
        for nm2, val2 in (("new", None),) + ones:
            N = Fun(C, 1)
            N.membership(N.id, val)
            x = N.intarg(1, "newid")
            N.membership(x, val2)
            inst = "%s when %s, result swarm %s" % (fn, nm, nm2)
            for o in nonempty(C, "set-operations", inst, N, N.run(fn)):
                r, good = ok(C, "set-operations", inst, N, o)
                if good:
                    w = val is ZERO
                    effects(C, "set-operations", inst, N, o, {x: w, N.id: not w}, [("SWARM_JOIN", x)] if w else [], [x])
                    m = swarm_table(N, o.st, r, x)
                    if m:
                        C.fail("set-operations", inst, N.where, m, o.st.trail)
        # the result replaces the operand
        N = Fun(C, 1)
        N.membership(N.id, val)
        N.arg(1, N.ido)
        inst = "%s when %s, result in the same swarm" % (fn, nm)
        for o in nonempty(C, "set-operations", inst, N, N.run(fn)):
            r, good = ok(C, "set-operations", inst, N, o)
            if good:
                w = val is ZERO
                effects(C, "set-operations", inst, N, o, {N.id: w}, [("SWARM_JOIN", N.id)] if w else [], [N.id])
                m = swarm_table(N, o.st, r, N.id)
                if m:
                    C.fail("set-operations", inst, N.where, m, o.st.trail)
    # union, intersection, difference
    for op, f in (("union", lambda a, b: a or b), ("intersection", lambda a, b: a and b), ("difference", lambda a, b: a and not b)):
        fn = "buzzswarm_" + op
        arity(C, "arity", fn, (3,), selfid=False)

        def swarmarg(N, i, val):
            t = N.V.obj("swarm%d" % i, v.TABLE)
            d = mk("swd", i)
            N.st.facts[d] = (1, INF, frozenset())
            N.st.ghost[("dks", d)] = 8
            N.e.store(N.st, addc(t, v.vt), d, "ptr")
            x, ido = N.intobj("id%d" % i)
            N.field(d, "id", ido)
            N.membership(x, val)
            N.arg(i, t)
            return x, d
        for case in ("an id that is not an int", "a first operand that is not a table", "a second operand that is not a table",
                     "a first operand without id", "a second operand without id", "a first operand with an id of another type",
                     "a second operand with an id of another type"):
            N = Fun(C, 3, False)
            N.intarg(1, "newid")
            a = swarmarg(N, 2, ONE)
            b = swarmarg(N, 3, ONE)
            codes = ("TYPE", "SWARM")
            i, d = (2, a[1]) if "first" in case else (3, b[1])
            if "id that" in case:
                nottype(N, 1, [v.INT])
            elif "table" in case:
                nottype(N, i, [v.TABLE])
            elif "without" in case:
                N.field(d, "id", None)
            else:
                bo = N.V.obj("badid")
                N.st.facts[N.e.load(N.st, bo, "i16")] = (0, 6, frozenset([v.INT]))
                N.field(d, "id", bo)
            for o in nonempty(C, "types", fn + case, N, N.run(fn)):
                expect_error(C, "types", "%s with %s" % (fn, case), N, o, codes)
        for va in (None, ZERO, ONE):
            for vb in (None, ZERO, ONE):
                N = Fun(C, 3, False)
                x = N.intarg(1, "newid")
                N.membership(x, None)
                a = swarmarg(N, 2, va)
                b = swarmarg(N, 3, vb)
                nm = {None: "unknown", ZERO: "out", ONE: "in"}
                inst = "%s of swarms %s and %s" % (op, nm[va], nm[vb])
                w = bool(f(va is ONE, vb is ONE))
                for o in nonempty(C, "set-operations", inst, N, N.run(fn)):
                    r, good = ok(C, "set-operations", inst, N, o)
                    if good:
                        effects(C, "set-operations", inst, N, o, {x: w}, [("SWARM_JOIN", x)] if w else [], [x])
                        m = swarm_table(N, o.st, r, x)
                        if m:
                            C.fail("set-operations", inst, N.where, m, o.st.trail)
                if va is None or vb is None:
                    continue
                for same in (2, 3):
                    N = Fun(C, 3, False)
                    ops = {i: swarmarg(N, i, y) for i, y in ((2, va), (3, vb))}
                    N.arg(1, mk("obj", "int_id%d" % same))
                    x, y = ops[same][0], ops[5 - same][0]
                    inst = "%s of swarms %s and %s, result in operand %d" % (op, nm[va], nm[vb], same - 1)
                    for o in nonempty(C, "set-operations", inst, N, N.run(fn)):
                        r, good = ok(C, "set-operations", inst, N, o)
                        if good:
                            effects(C, "set-operations", inst, N, o, {x: w, y: (vb if same == 2 else va) is ONE}, [("SWARM_JOIN", x)] if w else [], [x])
                            m = swarm_table(N, o.st, r, x)
                            if m:
                                C.fail("set-operations", inst, N.where, m, o.st.trail)
    # swarm.id()
    for n in (0, 1):
        for depth in ("empty", "some"):
            N = Fun(C, n, False)
            arg = N.intarg(1, "pos", None) if n else ONE
            # stack positions are 16-bit numbers
            if n:
                N.st.facts[arg] = (0, 65535, frozenset())
            D = ZERO if depth == "empty" else mk("swdepth", width="u")
            if depth != "empty":
                N.st.facts[D] = (1, 60000, frozenset())
            N.V.arr("swarmstack", D, 2)
            rd = []

            def load(e, fn, ins, st, a, D=D, rd=rd, N=N):
                N.touch(st, a, fn, ins, "read")
                base = mk("dadata", mk("vmf", "swarmstack"))
                if dict(lin_parts(st.simp(a))[1]).get(base) == 1:
                    i = sub(st.simp(a), base)
                    if st.ev(icmp("sge", i, ZERO)) is not True or st.ev(icmp("slt", i, scale(D, 2))) is not True:
                        rd.append((i, st.trail))
            N.e.hooks["load"] = load
            inst = "swarm.id with %d arguments, %s" % (n, "outside any swarm" if depth == "empty" else "inside a swarm")
            for o in nonempty(C, "current-swarm", inst, N, N.run("buzzswarm_id")):
                st = o.st
                if n and N.state(st) is I(v.ERROR):
                    continue
                r, good = ok(C, "current-swarm", inst, N, o)
                if not good:
                    continue
                if depth == "empty":
                    if r is None or N.V.type_of(st, r) is not I(v.NIL):
                        C.fail("current-swarm", inst, N.where, "does not return nil", st.trail)
                    continue
                base = mk("dadata", mk("vmf", "swarmstack"))
                got = fold(st, N.V.ival(st, r)) if r is not None and N.V.type_of(st, r) is I(v.INT) else None
                rows = [([(icmp("sle", arg, ZERO), True)], addc(D, -1)), ([(icmp("sgt", arg, ZERO), True), (icmp("sle", arg, D), True)], sub(D, arg)),
                        ([(icmp("sgt", arg, D), True)], ZERO)]
                for conds, idx in rows:
                    s2 = feasible(st, conds)
                    if s2 is None:
                        continue
                    want = s2.simp(N.e.load(s2, add(base, scale(s2.simp(idx), 2)), "i16"))
                    if got is None or fold(s2, N.V.ival(s2, r)) is not fold(s2, want):
                        C.fail("current-swarm", inst, N.where, "returns %s instead of %s" % (got and show(got), show(want)), st.trail)
            for i, tr in rd[:1]:
                C.fail("current-swarm", inst, N.where, "reads swarm stack slot %s of %s" % (show(i), show(D)), tr)
    execs(C)


def execs(C):
    fn = "buzzswarm_exec"
    v = C.env
    for nm, val in (("in", ONE), ("out", ZERO)):
        N = Fun(C, 1)
        e = N.e
        N.membership(N.id, val)
        c = N.arg(1, N.V.obj("cl"))
        N.anytype(c)
        stk, n0 = N.V.arr("stacks", mk("nstacks", width="u"))
        N.st.facts[n0] = (1, 1 << 30, frozenset())
        N.V.arr("swarmstack", mk("swdepth", width="u"), 2)
        ssz = lambda st: N.V.asize(st, mk("vmf", "swarmstack"))

        def call(e, st, args, fn, ins):
            na = N.V.top(st, 1)
            st.ev_add("call", args[1], N.V.type_of(st, na), fold(st, N.V.ival(st, na)), N.V.top(st, 2), sub(ssz(st), mk("swdepth", width="u")),
                      st.simp(e.load(st, add(mk("dadata", mk("vmf", "swarmstack")), scale(addc(ssz(st), -1), 2)), "i16")), len(N.evs(st, "ret")))
            bad = st.copy()
            e.store(bad, addc(N.vm, v.VM["state"]), I(v.ERROR), "i32")
            ccl = st.copy()
            ccl.ev_add("c_done")
            e.store(st, addc(stk, v.DA["size"]), addc(n0, 1), "i64")
            return [(st, I(v.READY)), (bad, I(v.ERROR)), (ccl, I(v.READY))]

        def step(e, st, args, fn, ins):
            if st.simp(N.state(st)) is not I(v.READY):
                return st, N.state(st)
            st.ev_add("step")
            if st.ev(icmp("sgt", N.V.asize(st, stk), n0)) is not True:
                st.ev_add("overrun")
            bad = st.copy()
            e.store(bad, addc(N.vm, v.VM["state"]), I(v.ERROR), "i32")
            bad.ev_add("steperr")
            fin = st.copy()
            e.store(fin, addc(stk, v.DA["size"]), n0, "i64")
            fin.ev_add("returned")
            return [(st, I(v.READY)), (bad, I(v.ERROR)), (fin, I(v.READY))]
        e.store(N.st, addc(stk, v.DA["size"]), addc(n0, 1), "i64")
        ret0 = e.models["buzzvm_ret0"]

        def ret(e, st, args, fn, ins):
            e.store(st, addc(stk, v.DA["size"]), n0, "i64")
            return ret0(e, st, args, fn, ins)
        e.models["buzzvm_ret0"] = ret
        e.models["buzzvm_call"] = call
        e.models["buzzvm_step"] = step
        inst = "%s when %s" % (fn, nm)
        kinds = set()
        for o in N.run(fn):
            st = o.st
            C.ob("exec", inst)
            calls = N.evs(st, "call")
            rets = N.evs(st, "ret")
            iscl = st.ev(icmp("eq", N.V.type_of(st, c), I(v.CLOSURE)))
            if val is ZERO:
                if calls or len(rets) != 1 or N.state(st) is not I(v.READY) or N.effects(st):
                    C.fail("exec", inst, N.where, "a robot outside the swarm must only return", st.trail)
                continue
            if iscl is False:
                kinds.add("not a closure")
                if N.state(st) is not I(v.ERROR) or calls or N.effects(st) or rets:
                    C.fail("exec", inst, N.where, "an argument that is not a closure is not refused", st.trail)
                continue
            if len(calls) != 1:
                C.fail("exec", inst, N.where, "the closure is called %d times" % len(calls), st.trail)
                continue
            x = calls[0]
            if fold(st, x[1]) is not ONE or x[2] is not I(v.INT) or x[3] is not ZERO or x[4] is not c:
                C.fail("exec", inst, N.where, "the call is %s(%s) with swarm flag %s" % (show(x[4]), show(x[3]), show(x[1])), st.trail)
            if x[5] is not ONE or fold(st, x[6]) is not fold(st, N.id):
                C.fail("exec", inst, N.where, "the current swarm during the call is %s" % show(x[6]), st.trail)
            if x[7] != 1 or len(rets) != 1:
                C.fail("exec", inst, N.where, "exec() must return before the closure is called, once", st.trail)
            if N.evs(st, "overrun"):
                C.fail("exec", inst, N.where, "instructions after the closure's return are executed", st.trail)
            if N.state(st) is I(v.READY):
                kinds.add("done")
                if st.ev(icmp("sle", N.V.asize(st, stk), n0)) is not True:
                    C.fail("exec", inst, N.where, "returns before the closure has returned", st.trail)
            else:
                kinds.add("fails")
            if fold(st, st.simp(o.ret)) is not fold(st, N.state(st)):
                C.fail("exec", inst, N.where, "returns %s although the state is %s" % (show(o.ret), show(N.state(st))), st.trail)
        if val is ONE and kinds != {"not a closure", "done", "fails"}:
            C.fail("exec", inst, N.where, "only the cases %s were found" % sorted(kinds), ())


MINIMA = {"create": 3, "arity": 20, "types": 30, "unknown-swarm": 6, "membership": 10, "set-operations": 59, "current-swarm": 4, "exec": 5}
