"""For each operator instruction and each pair of operand types (7 x 7 tags), buzzvm_step() is interpreted
abstractly from a symbolic stack; on every abstract path the resulting tag and value term must be the one the
language defines (value numbering: equal canonical terms), operands must be left unmodified and the result must be a
fresh object; every other pair of types must end in a type error."""
from bzsa.terms import *
from bzsa.vmspec import *

ARITH = {"ADD": ("add", "fadd"), "SUB": ("sub", "fsub"), "MUL": ("mul", "fmul"), "DIV": ("sdiv", "fdiv")}
CMP = {"EQ": "eq", "NEQ": "ne", "LT": "slt", "LTE": "sle", "GT": "sgt", "GTE": "sge"}
BIT = {"BAND": "and", "BOR": "or", "LSHIFT": "shl", "RSHIFT": "ashr"}


def asf(v, x, ty):
    if ty == v.INT:
        return mk("i2f", x)
    return x


def cmp_cases(v, S, a, b, ta, tb):
    """[(conds, sign)] of the three-way comparison, None = not comparable; 'nil' = exactly one nil"""
    e, st = S.e, S.st
    NUM = (v.INT, v.FLOAT)
    if ta == v.NIL and tb == v.NIL:
        return [((), 0)]
    if ta == v.NIL or tb == v.NIL:
        return "nil"
    if ta in NUM and tb in NUM:
        x, y = operand_value(v, e, st, a, ta), operand_value(v, e, st, b, tb)
        if ta == v.INT and tb == v.INT:
            lt, gt = icmp("slt", x, y), icmp("sgt", x, y)
        else:
            x, y = asf(v, x, ta), asf(v, y, tb)
            lt, gt = fcmp("olt", x, y), fcmp("ogt", x, y)
        return [(((lt, True),), -1), (((lt, False), (gt, True)), 1), (((lt, False), (gt, False)), 0)]
    if ta == v.STRING or tb == v.STRING:
        def txt(o, t):
            if t == v.STRING:
                return e.load(st, addc(o, v.sv["str"]), "ptr")
            if t == v.INT:
                return mk("fmtstr", mk("str", b"%d"), operand_value(v, e, st, o, t))
            if t == v.FLOAT:
                return mk("fmtstr", mk("str", b"%f"), operand_value(v, e, st, o, t))
            return None
        x, y = txt(a, ta), txt(b, tb)
        if x is not None and y is not None:
            from bzsa.models import strcmp_term
            d = strcmp_term(x, y)
            lt, gt = icmp("slt", d, ZERO), icmp("sgt", d, ZERO)
            return [(((lt, True),), -1), (((gt, True),), 1), (((lt, False), (gt, False)), 0)]
    if ta == v.TABLE and tb == v.TABLE:
        x, y = e.load(st, addc(a, v.vt), "ptr"), e.load(st, addc(b, v.vt), "ptr")
        lt, gt = icmp("slt", x, y), icmp("sgt", x, y)
        return [(((lt, True),), -1), (((gt, True),), 1), (((lt, False), (gt, False)), 0)]
    if ta == v.TABLE:
        return [((), 1)]
    if tb == v.TABLE:
        return [((), -1)]
    if ta == v.USERDATA and tb == v.USERDATA:
        x, y = e.load(st, addc(a, v.vu), "ptr"), e.load(st, addc(b, v.vu), "ptr")
        lt, gt = icmp("slt", x, y), icmp("sgt", x, y)
        return [(((lt, True),), -1), (((gt, True),), 1), (((lt, False), (gt, False)), 0)]
    return None


REL = {"EQ": lambda c: c == 0, "NEQ": lambda c: c != 0, "LT": lambda c: c < 0, "LTE": lambda c: c <= 0,
       "GT": lambda c: c > 0, "GTE": lambda c: c >= 0}


def spec(v, S, op, a, b, ta, tb):
    """(kind, type, cases): kind 'value' | 'error' ; cases for agree()"""
    e, st = S.e, S.st
    NUM = (v.INT, v.FLOAT)
    if op in ARITH or op in ("MOD", "POW"):
        if ta not in NUM or tb not in NUM:
            return ("error", "TYPE", None)
        x, y = operand_value(v, e, st, a, ta), operand_value(v, e, st, b, tb)
        bothint = ta == v.INT and tb == v.INT
        if op == "POW":
            return ("value", v.FLOAT, [((), mk("call", "pow", asf(v, x, ta), asf(v, y, tb)))])
        if op == "MOD":
            if bothint:
                r = binop("srem", x, y, width=32)
                neg = icmp("slt", r, ZERO)
                return ("value", v.INT, [(((neg, True),), add(r, y)), (((neg, False),), r)])
            r = mk("call", "fmod", asf(v, x, ta), asf(v, y, tb))
            neg = fcmp("olt", r, mk("cf", "0"))
            return ("value", v.FLOAT, [(((neg, True),), binop("fadd", r, asf(v, y, tb))), (((neg, False),), r)])
        io, fo = ARITH[op]
        if bothint:
            return ("value", v.INT, [((), binop(io, x, y, width=32))])
        return ("value", v.FLOAT, [((), binop(fo, asf(v, x, ta), asf(v, y, tb)))])
    if op in BIT:
        if ta != v.INT or tb != v.INT:
            return ("error", "TYPE", None)
        x, y = operand_value(v, e, st, a, ta), operand_value(v, e, st, b, tb)
        return ("value", v.INT, [((), binop(BIT[op], x, y, width=32))])
    if op in CMP:
        c = cmp_cases(v, S, a, b, ta, tb)
        if c is None:
            return ("uncomparable", None, None)
        if c == "nil":
            return ("value", v.INT, [((), I(1 if op == "NEQ" else 0))])
        return ("value", v.INT, [(cs, I(int(REL[op](x)))) for cs, x in c])
    raise AnalysisError(op)


def check_result(C, S, st, rule, inst, kind, ty, cases, operands, delta):
    v = S.v
    w = "buzzvm.c:buzzvm_step (%s)" % S.opname
    if kind == "error":
        if not S.is_error(st, ty):
            C.fail(rule, inst, w, "must end in a %s error; VM state is %s, error %s" % (ty, show(S.state(st)), show(S.error(st))), st.trail)
        return
    if not S.is_ready(st):
        C.fail(rule, inst, w, "must succeed, but the VM state becomes %s (error %s)" % (show(S.state(st)), show(S.error(st))), st.trail)
        return
    if S.V.stack_delta(st) != delta:
        C.fail(rule, inst, w, "stack depth changes by %s, must change by %d" % (S.V.stack_delta(st), delta), st.trail)
        return
    r = S.V.top(st)
    if r.op != "new":
        C.fail(rule, inst, w, "the result is not a fresh object: %s" % show(r), st.trail)
        return
    t = S.V.type_of(st, r)
    if t is not I(ty):
        C.fail(rule, inst, w, "result has tag %s, must be %s" % (show(t), v.TN[ty]), st.trail)
        return
    got = S.V.fval(st, r) if ty == v.FLOAT else S.V.ival(st, r)
    m = agree(st, got, cases)
    if m:
        C.fail(rule, inst, w, m, st.trail)
    for o in operands:
        for k in st.mem:
            if linatoms(k) == [o] and S.pre.mem.get(k) != st.mem[k]:
                C.fail(rule, inst, w, "an operand object is modified", st.trail)


def run(C):
    v = C.env
    for op in list(ARITH) + ["MOD", "POW"] + list(BIT) + list(CMP):
        for ta in range(7):
            for tb in range(7):
                S = Step(C, op, depth=2)
                a = S.operand(2, "a", ta)
                b = S.operand(1, "b", tb)
                inst = "%s(%s,%s)" % (op, v.TN[ta], v.TN[tb])
                kind, ty, cases = spec(v, S, op, a, b, ta, tb)
                trap = None
                if op in ("DIV", "MOD") and ta == v.INT and tb == v.INT:
                    x, y = operand_value(v, S.e, S.st, a, ta), operand_value(v, S.e, S.st, b, tb)
                    trap = (x, y)
                outs = S.run()
                C.ob("operator", inst, "%d abstract paths" % len(outs))
                if kind == "uncomparable":
                    for st, fn, line, name in S.e.exits:
                        C.fail("uncomparable-operands", inst, "%s:%s" % (fn.file, line),
                               "%s() ends the process instead of reporting an error" % name, st.trail)
                    for o in outs:
                        if not S.is_error(o.st, "TYPE"):
                            C.fail("operator", inst, "buzzvm.c:buzzvm_step", "comparing these types must be an error", o.st.trail)
                    continue
                for st, fn, line, name in S.e.exits:
                    C.fail("operator", inst, "%s:%s" % (fn.file, line), "the process is ended by %s()" % name, st.trail)
                if not outs:
                    if not S.e.exits:
                        C.fail("operator", inst, "buzzvm.c:buzzvm_step", "no path returns", ())
                    continue
                nok = 0
                for o in outs:
                    if trap and S.is_error(o.st):
                        x, y = trap
                        z, m1, mn = icmp("eq", y, ZERO), icmp("eq", y, I(-1)), icmp("eq", x, I(-2 ** 31))
                        if o.st.ev(z) is True or (o.st.ev(m1) is True and o.st.ev(mn) is True):
                            continue
                    nok += 1
                    if trap and S.is_ready(o.st):
                        x, y = trap
                        if o.st.ev(icmp("eq", y, ZERO)) is not False:
                            C.fail("operator", inst, "buzzvm.c:buzzvm_step", "a zero divisor reaches the integer division", o.st.trail)
                    check_result(C, S, o.st, "operator", inst, kind, ty, cases, (a, b), -1)
                if not nok:
                    C.fail("operator", inst, "buzzvm.c:buzzvm_step", "no path delivers a result", ())
    # unary
    for op in ("UNM", "BNOT"):
        for ta in range(7):
            S = Step(C, op, depth=1)
            a = S.operand(1, "a", ta)
            inst = "%s(%s)" % (op, v.TN[ta])
            x = operand_value(v, S.e, S.st, a, ta)
            if op == "UNM" and ta == v.INT:
                sp = ("value", v.INT, [((), scale(x, -1))])
            elif op == "UNM" and ta == v.FLOAT:
                z = mk("cf", "0")
                sp = ("value", v.FLOAT, [((), (mk("fneg", x), binop("fmul", mk("cf", "-1"), x)))])
            elif op == "BNOT" and ta == v.INT:
                sp = ("value", v.INT, [((), (binop("xor", x, I(-1), width=32), addc(scale(x, -1), -1)))])
            else:
                sp = ("error", "TYPE", None)
            outs = S.run()
            C.ob("operator", inst, "%d abstract paths" % len(outs))
            for st, fn, line, name in S.e.exits:
                C.fail("operator", inst, "%s:%s" % (fn.file, line), "the process is ended by %s()" % name, st.trail)
            for o in outs:
                check_result(C, S, o.st, "operator", inst, sp[0], sp[1], sp[2], (a,), 0)
    C.assume("32-bit overflow and shift counts outside 0..31 are not judged (C semantics)")
    C.assume("single- and double-precision evaluation of the same operation are identified")


MINIMA = {"operator": 600}
