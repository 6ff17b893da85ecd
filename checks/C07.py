"""Calls and returns. callc/calls are interpreted for native and C closures, 0..4 arguments and activation records of 1..3
symbols, ret0/ret1 for every caller-stack content, and the C entry points buzzvm_closure_call()/buzzvm_function_call()
with the callee replaced by an arbitrary one: frame pushed/popped exactly once, arguments bound in order after the captured
symbols, return address pushed/restored, exactly one result left to the caller, and errors (bad count, not a
closure, unknown C function) raised without creating a frame."""
from bzsa.terms import *
from bzsa.vmspec import *
from bzsa.absint import INF

W = "buzzvm.c:buzzvm_call"


def base(C, op, **kw):
    S = Step(C, op, **kw)
    V = S.V
    V.arr("lsymts")
    V.arr("stacks")
    V.arr("flist")
    V.arr("swarmstack", es=2)
    return S


def calls(C):
    v = C.env
    for op in ("CALLC", "CALLS"):
        for nat in (1, 0):
            for k in range(0, 5):
                for asz in (1, 2, 3):
                    if k > 2 and asz > 1:
                        continue
                    S = base(C, op, depth=k + 3)
                    V, st0 = S.V, S.st
                    c = S.operand(k + 2, "c", v.CLOSURE)
                    ar = mk("cactrec")
                    st0.facts[ar] = (1, INF, frozenset())
                    S.e.store(st0, addc(c, v.cl["actrec"]), ar, "ptr")
                    V.darray(ar, I(asz))
                    syms = []
                    for i in range(asz):
                        V.arrput(ar, I(i), mk("symobj", i))
                        syms.append(mk("symobj", i))
                    S.e.store(st0, addc(c, v.cl["isnative"]), I(nat), "i8")
                    ref = mk("ref", width="s")
                    S.e.store(st0, addc(c, v.cl["ref"]), ref, "i32")
                    for i in range(k):
                        a = S.operand(k + 1 - i, "arg%d" % (i + 1), None)
                        syms.append(a)
                    n = S.operand(1, "argn", v.INT)
                    S.e.store(st0, addc(n, v.vi), I(k), "i32")
                    self_ = S.operand(k + 3, "self", None)
                    seen = []

                    def icall(e, st, t, args, fn, ins, seen=seen):
                        seen.append((st.copy(), t, args))
                        return st, e.fresh(st, e.site(fn, ins), ins["ty"])
                    S.e.models["*icall*"] = icall
                    inst = "%s %s closure, %d args, %d captured" % (op, "native" if nat else "C", k, asz)
                    outs = S.run()
                    C.ob("call", inst, "%d abstract paths" % len(outs))
                    N0, M0, F0 = mk("n0", "stacks"), mk("n0", "lsymts"), mk("n0", "flist")
                    ok = 0
                    for o in outs:
                        st = o.st
                        if S.is_error(st):
                            code = S.error(st)
                            if code is I(v.E["FLIST"]) and not nat:
                                lo = st.ev(icmp("slt", ref, ZERO))
                                hi = st.ev(icmp("slt", ref, F0))
                                if lo is not True and hi is not False:
                                    C.fail("call", inst, W, "a registered C function is refused", st.trail)
                                if V.asize(st, mk("vmf", "stacks")) is not N0 or V.asize(st, mk("vmf", "lsymts")) is not M0:
                                    C.fail("call-error", inst, W, "a frame is left behind by a failed call", st.trail)
                                continue
                            if code is I(v.E["PC"]) and nat:
                                a, b = st.ev(icmp("slt", ref, ZERO)), st.ev(icmp("slt", ref, V.bsz))
                                if a is not True and b is not False and not any(x.op == "ult" for x in st.bools):
                                    C.fail("call", inst, W, "a valid entry point is refused", st.trail)
                                continue
                            C.fail("call", inst, W, "the call fails with error %s" % show(code), st.trail)
                            continue
                        ok += 1
                        if nat:
                            frame(C, S, st, inst, k, syms, op, N0, M0, ar, asz)
                            if V.get(st, "pc", "i32") is not ref:
                                C.fail("call", inst, W, "execution continues at %s, not at the closure's code" % show(V.get(st, "pc", "i32")), st.trail)
                    if not ok:
                        C.fail("call", inst, W, "no path performs the call", ())
                    if nat and seen:
                        C.fail("call", inst, W, "a native closure calls C code", ())
                    if not nat:
                        if not seen:
                            C.fail("call", inst, W, "the C function is not called", ())
                        for st, t, args in seen:
                            d = mk("dadata", mk("vmf", "flist"))
                            if t is not S.e.load(st, add(d, scale(ref, 8)), "ptr"):
                                C.fail("call", inst, W, "calls %s instead of the registered function" % show(t), st.trail)
                            if not args or args[0] is not V.vm:
                                C.fail("call", inst, W, "the function does not receive the VM", st.trail)
                            if st.ev(icmp("slt", ref, ZERO)) is not False or st.ev(icmp("slt", ref, F0)) is not True:
                                C.fail("call", inst, W, "the function id is not checked against the function list", st.trail)
                            frame(C, S, st, inst, k, syms, op, N0, M0, ar, asz)
                            if V.get(st, "pc", "i32") is not addc(V.pc, 1):
                                C.fail("call", inst, W, "the pc is moved by a C call", st.trail)


def frame(C, S, st, inst, k, syms, op, N0, M0, ar, asz):
    V, v = S.V, S.v
    stacks, lsymts = mk("vmf", "stacks"), mk("vmf", "lsymts")
    ls = V.get(st, "lsyms", "ptr")
    if ls.op != "new":
        C.fail("frame", inst, W, "vm->lsyms is not a fresh symbol table", st.trail)
        return
    if V.asize(st, lsymts) is not addc(M0, 1) or V.aget(st, lsymts, M0) is not ls:
        C.fail("frame", inst, W, "the symbol table is not pushed exactly once", st.trail)
    sw = st.simp(S.e.load(st, addc(ls, v.LS["isswarm"]), "i8"))
    if fold(st, sw) is not I(int(op == "CALLS")):
        C.fail("frame", inst, W, "isswarm is %s" % show(sw), st.trail)
    da = st.simp(S.e.load(st, addc(ls, v.LS["syms"]), "ptr"))
    if da is ar:
        C.fail("frame", inst, W, "the frame shares the closure's activation record", st.trail)
    n = V.asize(st, da)
    if n is not I(len(syms)):
        C.fail("frame", inst, W, "frame has %s symbols, expected %d" % (show(n), len(syms)), st.trail)
    else:
        for i, y in enumerate(syms):
            if V.aget(st, da, I(i)) is not y:
                C.fail("frame", inst, W, "symbol %d is %s, expected %s" % (i, show(V.aget(st, da, I(i))), show(y)), st.trail)
    if V.asize(st, ar) is not I(asz):
        C.fail("frame", inst, W, "the closure's activation record is modified", st.trail)
    stk = V.get(st, "stack", "ptr")
    if V.asize(st, stacks) is not addc(N0, 1) or V.aget(st, stacks, N0) is not stk:
        C.fail("frame", inst, W, "the new stack is not pushed exactly once", st.trail)
    if stk is V.stack or V.asize(st, stk) is not ZERO:
        C.fail("frame", inst, W, "the callee does not start with an empty stack of its own", st.trail)
    if V.asize(st, V.stack) is not addc(V.S0, -(k + 3) + 1):
        C.fail("frame", inst, W, "caller's stack has depth %s afterwards; arguments, closure, self and count must be replaced by the return address"
               % show(V.asize(st, V.stack)), st.trail)
    else:
        r = V.top(st, 1, V.stack)
        if V.type_of(st, r) is not I(v.INT) or V.ival(st, r) is not addc(V.pc, 1):
            C.fail("frame", inst, W, "the return address pushed is %s" % show(V.ival(st, r)), st.trail)
    if not S.is_ready(st):
        C.fail("frame", inst, W, "VM state is %s" % show(S.state(st)), st.trail)


def call_errors(C):
    v = C.env
    N0, M0 = mk("n0", "stacks"), mk("n0", "lsymts")
    for op in ("CALLC", "CALLS"):
        for depth in (0, 1, 2, 3, None):
            for nty in range(7):
                S = base(C, op)
                V = S.V
                if depth is not None:
                    V.size(V.stack, I(depth))
                    V.S0 = I(depth)
                    if depth:
                        V.put(1, V.obj("n", nty))
                    elif nty:
                        continue
                else:
                    V.depth_at_least(6)
                    V.put(1, V.obj("n", nty))
                n = mk("obj", "n")
                cnt = mk("argcount", width="s")
                if depth != 0 and nty == v.INT:
                    S.e.store(S.st, addc(n, v.vi), cnt, "i32")
                S.e.unroll_const = 4
                S.e.models["*icall*"] = lambda e, st, t, args, fn, ins: (st, e.fresh(st, e.site(fn, ins), ins["ty"]))
                inst = "%s depth=%s count=%s" % (op, depth, v.TN[nty])
                stack_guard(C, S, "call-bounds", inst)
                outs = S.run()
                for o in outs:
                    st = o.st
                    C.ob("call-error", inst)
                    must = None
                    if depth == 0:
                        must = "STACK"
                    elif nty != v.INT:
                        must = "TYPE"
                    if must:
                        if not S.is_error(st, must):
                            C.fail("call-error", inst, W, "must end in a %s error" % must, st.trail)
                    elif not S.is_error(st):
                        lo, hi = st.ev(icmp("sge", cnt, ZERO)), st.ev(icmp("sle", addc(cnt, 2), V.S0))
                        if lo is not True or hi is not True:
                            C.fail("call-error", inst, W, "a call proceeds with an unchecked argument count", st.trail)
                    if S.is_error(st) and S.error(st) is not I(v.E["PC"]):
                        if V.asize(st, mk("vmf", "stacks")) is not N0 or V.asize(st, mk("vmf", "lsymts")) is not M0:
                            C.fail("call-error", inst, W, "a frame is left behind by a failed call", st.trail)
    # not a closure
    for op in ("CALLC", "CALLS"):
        for ty in range(7):
            if ty == v.CLOSURE:
                continue
            for k in (0, 1, 2):
                S = base(C, op, depth=k + 3)
                c = S.operand(k + 2, "c", ty)
                n = S.operand(1, "n", v.INT)
                S.e.store(S.st, addc(n, v.vi), I(k), "i32")
                inst = "%s of a %s with %d args" % (op, v.TN[ty], k)
                for o in S.run():
                    C.ob("call-error", inst)
                    if not S.is_error(o.st, "TYPE"):
                        C.fail("call-error", inst, W, "calling a %s must be a type error" % v.TN[ty], o.st.trail)
                    if S.V.asize(o.st, mk("vmf", "stacks")) is not N0 or S.V.asize(o.st, mk("vmf", "lsymts")) is not M0:
                        C.fail("call-error", inst, W, "a frame is left behind by a failed call", o.st.trail)


def returns(C):
    v = C.env
    stacks, lsymts = mk("vmf", "stacks"), mk("vmf", "lsymts")
    for op in ("RET0", "RET1"):
        for sw in (0, 1):
            for outer in (True, False):
                for rt in range(7):
                    for have in (0, 1, None):
                        S = base(C, op)
                        V, st0 = S.V, S.st
                        ls, da, n = V.frame(swarm=sw)
                        M0 = mk("n0", "lsymts") if outer else ONE
                        if not outer:
                            V.size(lsymts, ONE)
                        else:
                            st0.assume(icmp("sge", M0, I(2)), True)
                        N0 = mk("n0", "stacks")
                        st0.assume(icmp("sge", N0, I(2)), True)
                        W0 = mk("n0", "swarmstack")
                        st0.assume(icmp("sge", W0, ONE), True)
                        ls2 = mk("vmf", "lsyms2")
                        st0.facts[ls2] = (1, INF, frozenset())
                        V.arrput(lsymts, addc(M0, -1), ls)
                        if outer:
                            V.arrput(lsymts, addc(M0, -2), ls2)
                        V.arrput(stacks, addc(N0, -1), V.stack)
                        st2 = mk("vmf", "callerstack")
                        st0.facts[st2] = (1, INF, frozenset())
                        V.arrput(stacks, addc(N0, -2), st2)
                        T0 = mk("n0", "callerstack", width="u")
                        V.darray(st2, T0)
                        st0.assume(icmp("sge", T0, ONE), True)
                        ra = V.obj("ra", rt)
                        V.arrput(st2, addc(T0, -1), ra)
                        val = mk("obj", "val")
                        if have is not None:
                            V.size(V.stack, I(have))
                            V.S0 = I(have)
                        else:
                            V.depth_at_least(1)
                        if have != 0:
                            val = S.operand(1, "val", None)
                        rpc = mk("returnpc")
                        S.e.store(st0, addc(ra, v.vi), rpc, "i32")
                        st0.assume(icmp("sge", rpc, ZERO), True)
                        st0.assume(icmp("slt", rpc, V.bsz), True)
                        inst = "%s%s%s, return address is %s, callee depth %s" % (op, " swarm" if sw else "", "" if outer else " outermost", v.TN[rt], have)
                        outs = S.run()
                        if not outs:
                            C.fail("return", inst, "buzzvm.c:" + op.lower(), "no path returns", ())
                        for o in outs:
                            st = o.st
                            C.ob("return", inst)
                            w = "buzzvm.c:buzzvm_" + op.lower()
                            if op == "RET1" and have == 0:
                                if not S.is_error(st, "STACK"):
                                    C.fail("return", inst, w, "returning a value from an empty stack must be a stack error", st.trail)
                                continue
                            if rt != v.INT:
                                if not S.is_error(st, "TYPE"):
                                    C.fail("return", inst, w, "a return address that is not an int must be a type error", st.trail)
                                continue
                            if not S.is_ready(st):
                                C.fail("return", inst, w, "the return fails with %s" % show(S.error(st)), st.trail)
                                continue
                            if V.get(st, "stack", "ptr") is not st2 or V.asize(st, stacks) is not addc(N0, -1):
                                C.fail("return", inst, w, "the caller's stack is not restored", st.trail)
                            if V.asize(st, lsymts) is not addc(M0, -1):
                                C.fail("return", inst, w, "not exactly one symbol table is dropped", st.trail)
                            if V.get(st, "lsyms", "ptr") is not (ls2 if outer else ZERO):
                                C.fail("return", inst, w, "the caller's symbol table is not restored (%s)" % show(V.get(st, "lsyms", "ptr")), st.trail)
                            if V.asize(st, mk("vmf", "swarmstack")) is not addc(W0, -sw):
                                C.fail("return", inst, w, "swarm stack size becomes %s" % show(V.asize(st, mk("vmf", "swarmstack"))), st.trail)
                            if V.get(st, "pc", "i32") is not rpc:
                                C.fail("return", inst, w, "execution continues at %s, not at the return address" % show(V.get(st, "pc", "i32")), st.trail)
                            if V.asize(st, st2) is not T0:
                                C.fail("return", inst, w, "the return address must be replaced by exactly one result", st.trail)
                            else:
                                r = V.top(st, 1, st2)
                                if op == "RET1" and r is not val:
                                    C.fail("return", inst, w, "the result is %s, not the value on top of the callee's stack" % show(r), st.trail)
                                if op == "RET0" and (r.op != "new" or V.type_of(st, r) is not I(v.NIL)):
                                    C.fail("return", inst, w, "the result must be nil", st.trail)
        S = base(C, op, depth=1)
        S.V.set("lsyms", ZERO, "ptr")
        for o in S.run():
            C.ob("return", op + " outside a function")
            if not S.is_error(o.st):
                C.fail("return", op + " outside a function", "buzzvm.c:buzzvm_" + op.lower(), "must be an error", o.st.trail)


def entry(C):
    """buzzvm_closure_call / buzzvm_function_call"""
    v = C.env
    for fname in ("buzzvm_closure_call", "buzzvm_function_call"):
        for k in (0, 1, 2, 3):
            for pre in ("READY", "DONE", "ERROR"):
                if fname == "buzzvm_closure_call" and pre != "READY":
                    continue
                S = base(C, "NOP", depth=k + 1)
                V, e = S.V, S.e
                sv = C.prog.enum("BUZZVM_STATE_" + pre)
                V.set("state", I(sv), "i32")
                c = mk("obj", "c")
                S.st.facts[c] = (1, INF, frozenset())
                args = []
                for i in range(k):
                    args.append(S.operand(k - i, "arg%d" % (i + 1), None))
                ctype = mk("ctype", width=16)
                e.store(S.st, c, ctype, "i16")
                S0 = V.S0
                fn0 = mk("fname")
                g = mk("vmf", "gsyms")
                if fname == "buzzvm_closure_call":
                    V.put(k + 1, c)
                    base0 = addc(S0, -(k + 1))
                    cargs = [V.vm, I(k)]
                    S.st.assume(icmp("eq", ctype, I(v.CLOSURE)), True)
                else:
                    base0 = addc(S0, -k)
                    cargs = [V.vm, fn0, I(k)]
                stacks = mk("vmf", "stacks")
                N0 = mk("n0", "stacks")
                layouts = []
                steps = []

                def m_call(e, st, a, fn, ins):
                    layouts.append((st.copy(), a))
                    s1, s2 = st.copy(), st.copy()
                    e.store(s1, addc(stacks, v.DA["size"]), addc(N0, 1), "i64")
                    e.store(s2, addc(V.vm, v.VM["state"]), I(v.ERROR), "i32")
                    st.ev_add("callee", "C")
                    s1.ev_add("callee", "native")
                    s2.ev_add("callee", "error")
                    return [(st, I(v.READY)), (s1, I(v.READY)), (s2, I(v.ERROR))]

                def m_step(e, st, a, fn, ins):
                    n = e.load(st, addc(stacks, v.DA["size"]), "i64")
                    steps.append((st.copy(), n))
                    if S.state(st) is not I(v.READY):
                        st.ev_add("step", "idle")
                        return [(st, S.state(st))]
                    if n is not addc(N0, 1):
                        st.ev_add("step", "foreign")
                        return [(st, I(v.READY))]
                    cnt = sum(1 for x in st.events if x[0] == "step")
                    out = []
                    s1 = st.copy()
                    e.store(s1, addc(stacks, v.DA["size"]), N0, "i64")
                    s1.ev_add("step", "return")
                    out.append((s1, I(v.READY)))
                    s2 = st.copy()
                    e.store(s2, addc(V.vm, v.VM["state"]), I(v.ERROR), "i32")
                    s2.ev_add("step", "error")
                    out.append((s2, I(v.ERROR)))
                    if cnt < 2:
                        st.ev_add("step", "inside")
                        out.append((st, I(v.READY)))
                    return out

                e.models["buzzvm_call"] = m_call
                e.models["buzzvm_step"] = m_step
                if fname == "buzzvm_function_call":
                    key = None
                inst = "%s with %d args, VM %s" % (fname, k, pre)
                w = "buzzvm.c:" + fname
                outs = S.run(fname, cargs)
                C.ob("c-entry", inst, "%d abstract paths" % len(outs))
                if pre == "ERROR":
                    for o in outs:
                        if layouts or steps or o.ret is not I(sv) or S.state(o.st) is not I(sv):
                            C.fail("c-entry", inst, w, "a VM in ERROR must be left alone", o.st.trail)
                    continue
                if not layouts:
                    C.fail("c-entry", inst, w, "the closure is never called", ())
                for st, a in layouts:
                    if a[1] is not ZERO:
                        C.fail("c-entry", inst, w, "called as a swarm closure", st.trail)
                    n = V.asize(st, V.stack)
                    if n is not addc(base0, k + 3):
                        C.fail("c-entry", inst, w, "the stack at the call holds %s element(s), expected self, closure, %d argument(s) and the count" % (show(sub(n, base0)), k), st.trail)
                        continue
                    lay = [V.aget(st, V.stack, addc(base0, i)) for i in range(k + 3)]
                    if V.type_of(st, lay[0]) is not I(v.NIL):
                        C.fail("c-entry", inst, w, "self is not nil", st.trail)
                    if fname == "buzzvm_closure_call":
                        if lay[1] is not c:
                            C.fail("c-entry", inst, w, "the closure is not below the arguments", st.trail)
                    else:
                        if lay[1].op != "ld" or lay[1].a[0].op != "dcell" or lay[1].a[0].a[0] is not g:
                            C.fail("c-entry", inst, w, "the object below the arguments is not the named global: %s" % show(lay[1]), st.trail)
                        elif V.type_of(st, lay[1]) is not I(v.CLOSURE):
                            C.fail("c-entry", inst, w, "a global that is not a closure is called", st.trail)
                    for i, x in enumerate(args):
                        if lay[2 + i] is not x:
                            C.fail("c-entry", inst, w, "argument %d is %s" % (i + 1, show(lay[2 + i])), st.trail)
                    if V.type_of(st, lay[-1]) is not I(v.INT) or V.ival(st, lay[-1]) is not I(k):
                        C.fail("c-entry", inst, w, "the argument count is wrong", st.trail)
                    if not S.is_ready(st):
                        C.fail("c-entry", inst, w, "called in state %s" % show(S.state(st)), st.trail)
                for st, n in steps:
                    if S.state(st) is I(v.READY) and n is not addc(N0, 1):
                        C.fail("c-entry", inst, w, "an instruction of the caller is executed after the callee has returned", st.trail)
                for o in outs:
                    st = o.st
                    if o.ret is not S.state(st):
                        C.fail("c-entry", inst, w, "returns %s, VM state is %s" % (show(o.ret), show(S.state(st))), st.trail)
                    if S.is_ready(st) and any(x[0] == "callee" for x in st.events):
                        if V.asize(st, stacks) is not N0:
                            C.fail("c-entry", inst, w, "returns to C although the callee has not finished", st.trail)
                    if not any(x[0] == "callee" for x in st.events):
                        if not S.is_error(st):
                            C.fail("c-entry", inst, w, "returns without calling and without an error", st.trail)


def run(C):
    calls(C)
    call_errors(C)
    returns(C)
    entry(C)


MINIMA = {"call": 30, "call-error": 60, "return": 150, "c-entry": 12}
