"""State discipline of the VM. buzzvm_step() is interpreted for every instruction (and for undefined opcodes) with unknown
operands: a VM that is not READY is left untouched; each path that ends in ERROR has set a non-zero error code and an
error message, each other path leaves error code and message alone; the value returned is the VM state; unknown opcodes are
errors. buzzvm_seterror(), buzzvm_execute_script() and buzzvm_function_call() are interpreted for the remaining
transitions."""
from bzsa.terms import *
from bzsa.vmspec import *
from bzsa.absint import INF


def run(C):
    v = C.env
    W = "buzzvm.c:buzzvm_step"
    # 1. only a READY VM executes
    for name in ("DONE", "ERROR", "NOCODE", "STOPPED"):
        sv = C.prog.enum("BUZZVM_STATE_" + name)
        for fn in ("buzzvm_step", "buzzvm_execute_script"):
            S = Step(C, mk("anyop", width=8))
            S.V.set("state", I(sv), "i32")
            S.V.set("error", mk("err0"), "i32")
            S.V.set("errormsg", mk("msg0"), "ptr")
            S.V.frame()
            stores = []
            S.e.hooks["store"] = lambda e, f, ins, st, a, x: stores.append((f, ins)) if not any(b.op == "alloca" for b in linatoms(a)) else None
            outs = S.run(fn)
            inst = "%s in state %s" % (fn, name)
            C.ob("not-ready", inst)
            for o in outs:
                if o.ret is not I(sv) or S.state(o.st) is not I(sv):
                    C.fail("not-ready", inst, "buzzvm.c:" + fn, "returns %s, VM state %s" % (show(o.ret), show(S.state(o.st))), o.st.trail)
                if o.st.events:
                    C.fail("not-ready", inst, "buzzvm.c:" + fn, "does %s" % (o.st.events[0],), o.st.trail)
            if stores:
                f, ins = stores[0]
                C.fail("not-ready", inst, "%s:%s" % (f.file, ins.get("line")), "modifies memory although the VM is not ready", ())
            if len(outs) < 1:
                C.fail("not-ready", inst, "buzzvm.c:" + fn, "does not return", ())
    # 2. error <=> state, code, message
    ops = opcodes(C)
    codes = {c: k for k, c in v.E.items()}
    for op in ops + ["<undefined>"]:
        for depth in (0, None):
            if op == "<undefined>":
                o8 = mk("undefop", width=8)
                S = Step(C, o8)
                S.st.assume(icmp("sge", o8, I(len(ops))), True)
                S.st.assume(icmp("sle", o8, I(255)), True)
            else:
                S = Step(C, op)
            V = S.V
            m0 = mk("msg0")
            V.set("errormsg", m0, "ptr")
            if depth == 0:
                V.size(V.stack, ZERO)
                V.S0 = ZERO
                ls, da, n = V.frame(1)
            else:
                V.depth_at_least(5)
                ls, da, n = V.frame()
            V.arr("lsymts")
            V.arr("stacks")
            inst = "%s%s" % (op, " on empty stack" if depth == 0 else "")
            if op in ("CALLC", "CALLS"):
                # the called C function is code outside this step
                S.e.unroll_const = 2
                S.e.models["*icall*"] = lambda e, st, t, args, fn, ins: (st, e.fresh(st, e.site(fn, ins), ins["ty"]))
            outs = S.run()
            for o in outs:
                st = o.st
                C.ob("error-report", inst)
                s, er, msg = S.state(st), S.error(st), V.get(st, "errormsg", "ptr")
                if o.ret is not s:
                    # READY may be returned as a constant when the state cannot have changed
                    C.fail("error-report", inst, W, "returns %s but the VM state is %s" % (show(o.ret), show(s)), st.trail)
                if s is I(v.ERROR):
                    if er.op != "i" or er.a[0] == 0 or er.a[0] not in codes:
                        C.fail("error-report", inst, W, "VM enters ERROR with error code %s" % show(er), st.trail)
                    if msg is m0 or st.bounds(msg)[0] < 1:
                        C.fail("error-report", inst, W, "VM enters ERROR without an error message", st.trail)
                    if op == "<undefined>" and er is not I(v.E["INSTR"]):
                        C.fail("undefined-opcode", inst, W, "error is %s" % codes.get(er.a[0]), st.trail)
                elif s in (I(v.READY), I(v.DONE)):
                    if er is not I(v.E["NONE"]) or msg is not m0:
                        C.fail("error-report", inst, W, "error code/message change although the VM is not in ERROR", st.trail)
                    if op == "<undefined>":
                        C.fail("undefined-opcode", inst, W, "an undefined opcode is executed", st.trail)
                    if (s is I(v.DONE)) != (op == "DONE"):
                        C.fail("error-report", inst, W, "VM state becomes %s" % show(s), st.trail)
                else:
                    C.fail("error-report", inst, W, "VM state becomes %s" % show(s), st.trail)
    # 3. seterror
    for msgarg in ("NULL", "given"):
        for code in sorted(codes):
            S = Step(C, "NOP")
            del S.e.models["buzzvm_seterror"]
            m0 = mk("msg0")
            S.V.set("errormsg", m0, "ptr")
            fmt = ZERO if msgarg == "NULL" else mk("fmt")
            if msgarg != "NULL":
                S.st.facts[fmt] = (1, INF, frozenset())
            outs = S.run("buzzvm_seterror", [S.V.vm, I(code), fmt])
            inst = "seterror(%s, %s message)" % (codes[code], msgarg)
            for o in outs:
                C.ob("seterror", inst)
                st = o.st
                if not S.is_error(st) or S.error(st) is not I(code):
                    C.fail("seterror", inst, "buzzvm.c:buzzvm_seterror", "state %s, error %s" % (show(S.state(st)), show(S.error(st))), st.trail)
                if S.V.get(st, "errormsg", "ptr").op != "new":
                    C.fail("seterror", inst, "buzzvm.c:buzzvm_seterror", "no fresh error message is stored: %s" % show(S.V.get(st, "errormsg", "ptr")), st.trail)
                elif ("free", S.V.get(st, "errormsg", "ptr")) in st.events:
                    C.fail("seterror", inst, "buzzvm.c:buzzvm_seterror", "the stored message has been freed", st.trail)
            if not outs:
                C.fail("seterror", inst, "buzzvm.c:buzzvm_seterror", "does not return", ())
    # 4. every error has a description
    g = C.prog.gdefs.get("buzzvm_error_desc")
    n = len(g[1]["init"]["arr"]) if g and g[1]["init"] and "arr" in g[1]["init"] else 0
    C.ob("description", "buzzvm_error_desc", "%d entries" % n)
    if n != len(codes):
        C.fail("description", "buzzvm_error_desc", "buzzvm.c:buzzvm_error_desc", "%d descriptions for %d error codes" % (n, len(codes)))


MINIMA = {"not-ready": 8, "error-report": 200, "seterror": 18}
