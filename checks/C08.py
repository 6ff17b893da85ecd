"""Data movement of the VM. Every push/load/store/table instruction is interpreted abstractly against a symbolic stack, frame,
global table and dictionary model (present and absent entries); on each path the object left on the stack or stored must
be exactly the one designated by the operands, errors must be raised for wrong operand types or out-of-range
locals, and nothing else may be written."""
from bzsa.terms import *
from bzsa.vmspec import *
from bzsa.vmenv import Dict

W = "buzzvm.c:buzzvm_step"


def setup(C, op, depth, frame=True, nsyms=None):
    S = Step(C, op, depth=depth)
    if frame:
        S.ls, S.da, S.n = S.V.frame(nsyms)
    return S


def ready(C, S, o, rule, inst, delta):
    if not S.is_ready(o.st):
        C.fail(rule, inst, W, "must succeed, but ends with state %s error %s" % (show(S.state(o.st)), show(S.error(o.st))), o.st.trail)
        return False
    if S.V.stack_delta(o.st) != delta:
        C.fail(rule, inst, W, "stack depth changes by %s instead of %d" % (S.V.stack_delta(o.st), delta), o.st.trail)
        return False
    return True


def dictwrites(st):
    return [x for x in st.events if x[0] in ("dset", "dremove")]


def nowrites(C, S, st, rule, inst, allow=()):
    """no dictionary and no foreign array is modified"""
    for x in st.events:
        if x[0] in ("dset", "dremove", "da_set", "da_insert", "da_remove", "da_clear", "da_set_beyond", "da_destroy"):
            if x[1] not in allow:
                C.fail(rule, inst, W, "unexpected write %s" % (x[:2],), st.trail)
        if x[0] in ("da_push", "da_pop") and x[1] is not S.V.stack and x[1] not in allow and x[1].op not in ("actrec", "new"):
            C.fail(rule, inst, W, "unexpected write %s" % (x[:2],), st.trail)


def pushes(C):
    v = C.env
    x = mk("argument")
    for op in ("PUSHNIL", "PUSHI", "PUSHF", "PUSHS", "PUSHCN", "PUSHCC", "PUSHT", "DUP", "POP"):
        S = setup(C, op, 2)
        a = S.operand(1, "a", None)
        if op in ("PUSHI", "PUSHS", "PUSHCN", "PUSHCC"):
            S.arg(x)
        if op == "PUSHF":
            S.arg(x, "f32")
        n = 0
        for o in S.run():
            st = o.st
            C.ob("push", op)
            sx = None
            if op == "PUSHS":
                sx = mk("trunc", 16, x)
                if S.is_error(st, "STRING"):
                    if st.ev(icmp("eq", mk("sget", sx), ZERO)) is not True:
                        C.fail("push", op, W, "a string error is raised for a known string id", st.trail)
                    continue
                if st.ev(icmp("eq", mk("sget", sx), ZERO)) is not False:
                    C.fail("push", op, W, "an unknown string id is pushed", st.trail)
            if op == "POP":
                if ready(C, S, o, "push", op, -1):
                    n += 1
                    nowrites(C, S, st, "push", op)
                continue
            if not ready(C, S, o, "push", op, 1):
                continue
            n += 1
            nowrites(C, S, st, "push", op)
            r = S.V.top(st)
            if op == "DUP":
                if r is not a or S.V.top(st, 2) is not a:
                    C.fail("push", op, W, "dup does not leave the same object twice", st.trail)
                continue
            if S.V.top(st, 2) is not a:
                C.fail("push", op, W, "the previous top of the stack is disturbed", st.trail)
            want = {"PUSHNIL": v.NIL, "PUSHI": v.INT, "PUSHF": v.FLOAT, "PUSHS": v.STRING, "PUSHCN": v.CLOSURE,
                    "PUSHCC": v.CLOSURE, "PUSHT": v.TABLE}[op]
            if r.op != "new" or S.V.type_of(st, r) is not I(want):
                C.fail("push", op, W, "pushes %s of tag %s" % (show(r), show(S.V.type_of(st, r))), st.trail)
                continue
            if op == "PUSHI" and S.V.ival(st, r) is not x or op == "PUSHF" and S.V.fval(st, r) is not x:
                C.fail("push", op, W, "pushed value is not the instruction's argument", st.trail)
            if op == "PUSHS":
                sid = st.simp(S.e.load(st, addc(r, v.sv["sid"]), "i16"))
                txt = st.simp(S.e.load(st, addc(r, v.sv["str"]), "ptr"))
                if sid is not sx or txt is not mk("sget", sx):
                    C.fail("push", op, W, "pushed string is (%s,%s)" % (show(sid), show(txt)), st.trail)
            if op in ("PUSHCN", "PUSHCC"):
                closure(C, S, st, r, x, int(op == "PUSHCN"), op, None)
            if op == "PUSHT":
                d = S.e.load(st, addc(r, v.vt), "ptr")
                if st.simp(S.e.load(st, addc(d, v.DD["size"]), "i32")) is not ZERO:
                    C.fail("push", op, W, "the new table is not empty", st.trail)
        if not n:
            C.fail("push", op, W, "no path succeeds", ())


def closure(C, S, st, r, ref, nat, inst, syms):
    v = S.v
    isn = st.simp(S.e.load(st, addc(r, v.cl["isnative"]), "i8"))
    rf = st.simp(S.e.load(st, addc(r, v.cl["ref"]), "i32"))
    ar = st.simp(S.e.load(st, addc(r, v.cl["actrec"]), "ptr"))
    if rf is not ref:
        C.fail("closure", inst, W, "closure refers to %s instead of %s" % (show(rf), show(ref)), st.trail)
    if isn is not I(nat):
        C.fail("closure", inst, W, "closure is marked isnative=%s" % show(isn), st.trail)
    n = S.V.asize(st, ar)
    if syms is None:
        e0 = S.V.aget(st, ar, ZERO)
        if n is not ONE or S.V.type_of(st, e0) is not I(v.NIL):
            C.fail("closure", inst, W, "activation record must hold exactly a nil self, has %s element(s)" % show(n), st.trail)
    else:
        if n is not I(len(syms)) or any(S.V.aget(st, ar, I(i)) is not y for i, y in enumerate(syms)):
            C.fail("closure", inst, W, "activation record does not capture the %d symbols in scope (has %s)" % (len(syms), show(n)), st.trail)


def run(C):
    v = C.env
    pushes(C)
    # closures capture the scope
    for n in (None, 1, 2, 3):
        S = setup(C, "PUSHL", 0, frame=n is not None, nsyms=n)
        if n is None:
            S.V.set("lsyms", ZERO, "ptr")
            syms = None
        else:
            syms = []
            for i in range(n):
                y = mk("symobj", i)
                S.V.arrput(S.da, I(i), y)
                syms.append(y)
        x = mk("argument")
        S.arg(x)
        inst = "PUSHL in a scope of %s symbols" % n
        outs = S.run()
        C.ob("closure", inst)
        if not outs:
            C.fail("closure", inst, W, "no path returns", ())
        for o in outs:
            if ready(C, S, o, "closure", inst, 1):
                r = S.V.top(o.st)
                if S.V.type_of(o.st, r) is not I(v.CLOSURE) or r.op != "new":
                    C.fail("closure", inst, W, "does not push a fresh closure", o.st.trail)
                else:
                    closure(C, S, o.st, r, x, 1, inst, syms)
                if n is not None and S.V.asize(o.st, S.da) is not I(n):
                    C.fail("closure", inst, W, "the enclosing scope is modified", o.st.trail)
    # globals
    for t in range(7):
        S = setup(C, "GLOAD", 1)
        a = S.operand(1, "a", t)
        inst = "GLOAD(%s)" % v.TN[t]
        g = mk("vmf", "gsyms")
        key = S.e.models["_dd"].key(S.e, S.st, addc(a, v.sv["sid"]), g)
        outs = S.run()
        kinds = set()
        for o in outs:
            C.ob("global", inst)
            st = o.st
            if t != v.STRING:
                if not S.is_error(st, "TYPE"):
                    C.fail("global", inst, W, "name of a global must be a string", st.trail)
                continue
            if not ready(C, S, o, "global", inst, 0):
                continue
            nowrites(C, S, st, "global", inst)
            pres = st.ghost.get(("d", g, key))
            kinds.add(pres)
            r = S.V.top(st)
            if pres == "yes":
                if r is not st.simp(S.e.load(st, mk("dcell", g, key), "ptr")):
                    C.fail("global", inst, W, "pushes %s instead of the variable's value" % show(r), st.trail)
            elif pres == "no":
                if r.op != "new" or S.V.type_of(st, r) is not I(v.NIL):
                    C.fail("global", inst, W, "an undefined global must read as nil", st.trail)
            else:
                C.fail("global", inst, W, "the variable is not looked up by the name on the stack", st.trail)
        if t == v.STRING and kinds != {"yes", "no"}:
            C.fail("global", inst, W, "existing and missing variables are not distinguished", ())
    for t in range(7):
        S = setup(C, "GSTORE", 2)
        a = S.operand(2, "a", t)
        b = S.operand(1, "b", None)
        inst = "GSTORE(%s)" % v.TN[t]
        g = mk("vmf", "gsyms")
        key = S.e.models["_dd"].key(S.e, S.st, addc(a, v.sv["sid"]), g)
        for o in S.run():
            C.ob("global", inst)
            st = o.st
            if t != v.STRING:
                if not S.is_error(st, "TYPE"):
                    C.fail("global", inst, W, "name of a global must be a string", st.trail)
                if dictwrites(st):
                    C.fail("global", inst, W, "a variable is written in spite of the error", st.trail)
                continue
            if not ready(C, S, o, "global", inst, -2):
                continue
            ws = dictwrites(st)
            if len(ws) != 1 or ws[0][:4] != ("dset", g, key, b):
                C.fail("global", inst, W, "must bind exactly the named variable to the top of the stack; does %s" % (ws,), st.trail)
    # locals
    for sz in (1, 2, 4, None, "none"):
        for op in ("LLOAD", "LSTORE", "LREMOVE"):
            idxs = range(0, 6) if sz not in (None, "none") else (None,)
            for ix in idxs:
                S = setup(C, op, 1, nsyms=sz if sz != "none" else 1)
                if sz == "none":
                    S.V.set("lsyms", ZERO, "ptr")
                b = S.operand(1, "b", None)
                x = I(ix) if ix is not None else mk("argument", width="u")
                S.arg(x)
                before = [S.V.aget(S.st, S.da, I(i)) for i in range(sz)] if isinstance(sz, int) else []
                inst = "%s %s with %s symbols" % (op, ix, sz)
                for o in S.run():
                    st = o.st
                    C.ob("local", inst)
                    n = S.n
                    if sz == "none":
                        if not S.is_error(st, "LNUM"):
                            C.fail("local", inst, W, "local access outside a function must be an error", st.trail)
                        continue
                    inrange = st.ev(icmp("slt", x, n))
                    if op == "LLOAD":
                        if S.is_error(st, "LNUM"):
                            if inrange is not False:
                                C.fail("local", inst, W, "an existing local is refused", st.trail)
                            continue
                        if inrange is not True:
                            C.fail("local", inst, W, "a local that does not exist is read", st.trail)
                        if ready(C, S, o, "local", inst, 1):
                            nowrites(C, S, st, "local", inst)
                            if S.V.top(st) is not st.simp(S.V.aget(st, S.da, x)):
                                C.fail("local", inst, W, "pushes %s instead of local %s" % (show(S.V.top(st)), show(x)), st.trail)
                    elif op == "LSTORE":
                        if not ready(C, S, o, "local", inst, -1):
                            continue
                        if sz is None:
                            if inrange is True and S.V.asize(st, S.da) is not n:
                                C.fail("local", inst, W, "storing to an existing local changes the number of locals", st.trail)
                            if inrange is True and S.V.aget(st, S.da, x) is not b:
                                C.fail("local", inst, W, "the local does not receive the top of the stack", st.trail)
                            continue
                        n1 = S.V.asize(st, S.da)
                        if n1 is not I(max(sz, ix + 1)):
                            C.fail("local", inst, W, "there are %s locals afterwards" % show(n1), st.trail)
                            continue
                        for i in range(max(sz, ix + 1)):
                            y = S.V.aget(st, S.da, I(i))
                            if i == ix:
                                if y is not b:
                                    C.fail("local", inst, W, "local %d does not receive the top of the stack" % i, st.trail)
                            elif i < sz:
                                if y is not before[i]:
                                    C.fail("local", inst, W, "local %d is changed" % i, st.trail)
                            elif y.op != "new" or S.V.type_of(st, y) is not I(v.NIL):
                                C.fail("local", inst, W, "slot %d is left uninitialised (%s)" % (i, show(y)), st.trail)
                    else:
                        if S.is_error(st, "LNUM"):
                            if st.ev(icmp("slt", x, n)) is not False:
                                C.fail("local", inst, W, "removing existing locals is refused", st.trail)
                            if S.V.asize(st, S.da) is not n:
                                C.fail("local", inst, W, "locals are removed in spite of the error", st.trail)
                            continue
                        if not ready(C, S, o, "local", inst, 0):
                            continue
                        if st.ev(icmp("slt", x, n)) is not True:
                            C.fail("local", inst, W, "more locals are removed than exist (self must stay)", st.trail)
                        if sz is not None and S.V.asize(st, S.da) is not I(sz - ix):
                            C.fail("local", inst, W, "%s locals remain" % show(S.V.asize(st, S.da)), st.trail)
                        if sz is not None and S.V.asize(st, S.da) is I(sz - ix):
                            for i in range(sz - ix):
                                if S.V.aget(st, S.da, I(i)) is not before[i]:
                                    C.fail("local", inst, W, "a remaining local is changed", st.trail)
    # tables
    KEYS = (v.INT, v.FLOAT, v.STRING)
    for tk in range(7):
        for tt in (v.TABLE, v.INT, v.NIL, v.STRING, v.CLOSURE, v.USERDATA, v.FLOAT):
            S = setup(C, "TGET", 2)
            t = S.operand(2, "t", tt)
            k = S.operand(1, "k", tk)
            inst = "TGET(%s[%s])" % (v.TN[tt], v.TN[tk])
            d = S.e.load(S.st, addc(t, v.vt), "ptr")
            kinds = set()
            for o in S.run():
                st = o.st
                C.ob("table", inst)
                if dictwrites(st):
                    C.fail("table", inst, W, "reading a table modifies it", st.trail)
                if tt != v.TABLE or tk not in KEYS:
                    if not S.is_error(st, "TYPE"):
                        C.fail("table", inst, W, "must be a type error", st.trail)
                    continue
                if not ready(C, S, o, "table", inst, -1):
                    continue
                pres = st.ghost.get(("d", d, k))
                kinds.add(pres)
                r = S.V.top(st)
                if pres == "yes":
                    if r is not st.simp(S.e.load(st, mk("dcell", d, k), "ptr")):
                        C.fail("table", inst, W, "pushes %s instead of the stored value" % show(r), st.trail)
                elif pres == "no":
                    if r.op != "new" or S.V.type_of(st, r) is not I(v.NIL):
                        C.fail("table", inst, W, "a missing key must read as nil", st.trail)
                else:
                    C.fail("table", inst, W, "the key on the stack is not looked up in the table", st.trail)
            if tt == v.TABLE and tk in KEYS and kinds != {"yes", "no"}:
                C.fail("table", inst, W, "present and missing keys are not distinguished", ())
            for tv in range(7):
                if tt != v.TABLE and tv > 1:
                    continue
                S = setup(C, "TPUT", 3)
                t = S.operand(3, "t", tt)
                k = S.operand(2, "k", tk)
                x = S.operand(1, "x", tv)
                inst = "TPUT(%s[%s]=%s)" % (v.TN[tt], v.TN[tk], v.TN[tv])
                sizes = (1, 2, 3) if tv == v.CLOSURE else (None,)
                for asz in sizes:
                    if asz is not None:
                        S = setup(C, "TPUT", 3)
                        t = S.operand(3, "t", tt)
                        k = S.operand(2, "k", tk)
                        x = S.operand(1, "x", tv)
                        ar = mk("xactrec")
                        S.st.facts[ar] = (1, float("inf"), frozenset())
                        S.e.store(S.st, addc(x, v.cl["actrec"]), ar, "ptr")
                        S.V.darray(ar, I(asz))
                        syms = []
                        for i in range(asz):
                            S.V.arrput(ar, I(i), mk("symobj", i))
                            syms.append(mk("symobj", i))
                        syms[0] = t
                        ref = S.e.load(S.st, addc(x, v.cl["ref"]), "i32")
                        nat = S.e.load(S.st, addc(x, v.cl["isnative"]), "i8")
                    d = S.e.load(S.st, addc(t, v.vt), "ptr")
                    for o in S.run():
                        st = o.st
                        C.ob("table", inst)
                        ws = dictwrites(st)
                        if tt != v.TABLE or tk not in KEYS:
                            if not S.is_error(st, "TYPE"):
                                C.fail("table", inst, W, "must be a type error", st.trail)
                            if ws:
                                C.fail("table", inst, W, "the table is modified in spite of the error", st.trail)
                            continue
                        if not ready(C, S, o, "table", inst, -3):
                            continue
                        if tv == v.NIL:
                            if st.ghost.get(("d", d, k)) != "no" or any(w[0] == "dset" or w[1] is not d or w[2] is not k for w in ws):
                                C.fail("table", inst, W, "storing nil must remove exactly this key; does %s" % (ws,), st.trail)
                            continue
                        if len(ws) != 1 or ws[0][:3] != ("dset", d, k):
                            C.fail("table", inst, W, "must set exactly this key; does %s" % (ws,), st.trail)
                            continue
                        y = ws[0][3]
                        if tv != v.CLOSURE:
                            if y is not x:
                                C.fail("table", inst, W, "stores %s instead of the value" % show(y), st.trail)
                            continue
                        if y.op != "new" or S.V.type_of(st, y) is not I(v.CLOSURE):
                            C.fail("table", inst, W, "a function stored in a table must become a fresh method closure", st.trail)
                            continue
                        rf = st.simp(S.e.load(st, addc(y, v.cl["ref"]), "i32"))
                        isn = st.simp(S.e.load(st, addc(y, v.cl["isnative"]), "i8"))
                        a2 = st.simp(S.e.load(st, addc(y, v.cl["actrec"]), "ptr"))
                        if rf is not ref or fold(st, isn) is not fold(st, nat):
                            C.fail("table", inst, W, "the method refers to another function", st.trail)
                        n2 = S.V.asize(st, a2)
                        if n2 is not I(asz) or any(S.V.aget(st, a2, I(i)) is not s0 for i, s0 in enumerate(syms)):
                            C.fail("table", inst, W, "the method's activation record must be the function's with self bound to the table", st.trail)
                        if S.V.asize(st, ar) is not I(asz) or S.V.aget(st, ar, ZERO) is not mk("symobj", 0):
                            C.fail("table", inst, W, "the original function is modified", st.trail)


MINIMA = {"push": 9, "closure": 4, "global": 14, "local": 60, "table": 200}
