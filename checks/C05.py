"""Every place where a script value is used as a condition (jumpz, jumpnz, and, or, not) is interpreted abstractly for all
7 value tags (49 pairs for and/or), integers split into zero/non-zero by the path facts; the branch taken or the 0/1
result must be the one given by the single rule: false iff nil or the integer 0."""
from bzsa.terms import *
from bzsa.vmspec import *


def truth(v, S, o, ty):
    """[(conds, bool)]"""
    if ty == v.NIL:
        return [((), False)]
    if ty == v.INT:
        z = icmp("eq", operand_value(v, S.e, S.st, o, ty), ZERO)
        return [(((z, True),), False), (((z, False),), True)]
    return [((), True)]


def run(C):
    v = C.env
    W = "buzzvm.c:buzzvm_step"
    for op in ("JUMPZ", "JUMPNZ"):
        for t in range(7):
            S = Step(C, op, depth=1)
            a = S.operand(1, "a", t)
            tgt = mk("target")
            S.arg(tgt)
            S.st.assume(icmp("sge", tgt, ZERO), True)
            S.st.assume(icmp("slt", tgt, S.V.bsz), True)
            cases = truth(v, S, a, t)
            inst = "%s(%s)" % (op, v.TN[t])
            for o in S.run():
                C.ob("conditional-jump", inst)
                if not S.is_ready(o.st):
                    C.fail("conditional-jump", inst, W, "the jump fails with error %s" % show(S.error(o.st)), o.st.trail)
                    continue
                pc = S.V.get(o.st, "pc", "i32")
                nxt = addc(S.V.pc, 5)
                m = agree(o.st, pc, [(c, tgt if b == (op == "JUMPNZ") else nxt) for c, b in cases])
                if m:
                    C.fail("conditional-jump", inst, W, "next pc: " + m, o.st.trail)
                if S.V.stack_delta(o.st) != -1:
                    C.fail("conditional-jump", inst, W, "the condition is not popped", o.st.trail)
    for t in range(7):
        S = Step(C, "LNOT", depth=1)
        a = S.operand(1, "a", t)
        one(C, S, "LNOT(%s)" % v.TN[t], [(c, I(int(not b))) for c, b in truth(v, S, a, t)], 0)
    for op in ("LAND", "LOR"):
        for ta in range(7):
            for tb in range(7):
                S = Step(C, op, depth=2)
                a = S.operand(2, "a", ta)
                b = S.operand(1, "b", tb)
                cs = []
                for c1, x in truth(v, S, a, ta):
                    for c2, y in truth(v, S, b, tb):
                        cs.append((c1 + c2, I(int((x and y) if op == "LAND" else (x or y)))))
                one(C, S, "%s(%s,%s)" % (op, v.TN[ta], v.TN[tb]), cs, -1)


def one(C, S, inst, cases, delta):
    W = "buzzvm.c:buzzvm_step"
    for o in S.run():
        C.ob("logic-operator", inst)
        st = o.st
        if not S.is_ready(st):
            C.fail("logic-operator", inst, W, "fails with error %s" % show(S.error(st)), st.trail)
            continue
        r = S.V.top(st)
        if S.V.stack_delta(st) != delta or r.op != "new" or S.V.type_of(st, r) is not I(S.v.INT):
            C.fail("logic-operator", inst, W, "must replace its operands by one fresh int", st.trail)
            continue
        m = agree(st, S.V.ival(st, r), cases)
        if m:
            C.fail("logic-operator", inst, W, m, st.trail)


MINIMA = {"conditional-jump": 14, "logic-operator": 100}
