"""Every load from the bytecode reached from buzzvm_step() (each instruction, any pc, any bytecode size) and from
buzzvm_set_bcode() is an obligation: the path facts at the load must establish 0 <= offset and offset+width <= bcode_size.
Path facts are intervals on canonical linear terms, loops are widened."""
from bzsa.terms import *
from bzsa.vmspec import *
from bzsa.absint import INF


def m_memchr(e, st, args, fn, ins):
    s2 = st.copy()
    k = e.fresh(st, e.site(fn, ins) + ("k",), "i64")
    st.assume(icmp("sge", k, ZERO), True)
    ok = st.assume(icmp("slt", k, args[2]), True)
    return ([(st, add(args[0], k))] if ok else []) + [(s2, ZERO)]


def run(C):
    v = C.env
    for op in opcodes(C) + ["<any>"]:
        S = Step(C, mk("anyop", width=8) if op == "<any>" else op, room=None)
        V = S.V
        S.st.facts.clear()
        for f in list(S.st.mem):
            t = S.st.mem[f][0]
            if t.op == "vmf":
                S.st.facts[t] = (1, INF, frozenset())
        S.st.facts[V.vm] = (1, INF, frozenset())
        S.st.assume(icmp("sge", V.bsz, ZERO), True)
        V.frame()
        V.arr("lsymts")
        V.arr("stacks")
        S.e.models["*icall*"] = lambda e, st, t, args, fn, ins: (st, e.fresh(st, e.site(fn, ins), ins["ty"]))
        code_guard(C, S, "fetch", op)
        S.run()
        C.ob("fetch", op)
    # loading the bytecode
    nop = lambda e, st, args, fn, ins: (st, ZERO)

    def step(e, st, args, fn, ins):
        pcv = mk("pcx", width="s")
        st.facts = {k: f for k, f in st.facts.items() if pcv not in atoms(k)}
        S.V.st = st
        e.store(st, addc(S.V.vm, v.VM["pc"]), pcv, "i32")
        s2 = st.copy()
        e.store(s2, addc(S.V.vm, v.VM["state"]), I(v.ERROR), "i32")
        return [(st, I(v.READY)), (s2, I(v.ERROR))]

    m = {f: nop for f in ("buzzneighbors_new", "buzzobj_register", "buzzvstig_register", "buzzswarm_register",
                          "buzzmath_register", "buzzio_register", "buzzstring_register")}
    m["buzzvm_step"] = step
    S = Step(C, "NOP", room=None, models=m)
    b = mk("vmf", "bcode")
    n = mk("bsz")
    S.st.assume(icmp("sge", n, ZERO), True)
    reads = []

    def need(e, fn, line, st, off, w, what):
        C.ob("load-bytecode", "set_bcode")
        reads.append(off)
        lo, _ = st.bounds(off)
        _, hi = st.bounds(sub(add(off, w), n))
        if lo < 0 or hi > 0:
            C.fail("load-bytecode", "set_bcode", "%s:%s (%s)" % (fn.file, line, fn.name),
                   "%s at offset %s is not bounded by the bytecode size" % (what, show(off)), st.trail)

    def rel(addr):
        p = dict(lin_parts(addr)[1])
        return sub(addr, b) if p.get(b) == 1 else None

    def hl(e, fn, ins, st, addr):
        o = rel(addr)
        if o is not None:
            need(e, fn, ins.get("line"), st, o, I({"i8": 1, "i16": 2, "i32": 4, "f32": 4}.get(ins["ty"], 8)), "read")

    def hm(e, st, dst, src, cnt):
        o = rel(src)
        if o is not None:
            f = C.prog.need("buzzvm_set_bcode")
            need(e, f, f.line, st, o, cnt, "copy")

    def hc(e, fn, ins, st, name, args):
        if name == "buzzstrman_register" and rel(args[1]) is not None:
            C.ob("string-terminated", "set_bcode")
            o = rel(args[1])
            # the terminator must have been located: some known offset k with o <= k < n
            term = [x for x in st.ghost if isinstance(x, tuple) and x[0] == "nul" and x[1] is args[1]]
            if not term:
                C.fail("string-terminated", "set_bcode", "%s:%s" % (fn.file, ins.get("line")),
                       "a string is taken from the bytecode before its terminator was found inside it", st.trail)
        if name in ("memchr", "strnlen") and rel(args[0]) is not None:
            cnt = args[2] if name == "memchr" else args[1]
            need(e, fn, ins.get("line"), st, rel(args[0]), cnt, "search")

    def memchr(e, st, args, fn, ins):
        r = m_memchr(e, st, args, fn, ins)
        for s1, val in r:
            if val is not ZERO and args[1] is ZERO:
                s1.ghost[("nul", args[0])] = True
        return r

    S.e.hooks.update({"load": hl, "memcpy": hm, "call": hc, "ghost_join": lambda k, a, b: a if a == b else None})
    def strnlen(e, st, args, fn, ins):
        s2 = st.copy()
        k = e.fresh(st, e.site(fn, ins) + ("k",), "i64")
        st.assume(icmp("sge", k, ZERO), True)
        ok = st.assume(icmp("slt", k, args[1]), True)
        st.ghost[("nul", args[0])] = True
        return ([(st, k)] if ok else []) + [(s2, args[1])]

    S.e.models["memchr"] = memchr
    S.e.models["strnlen"] = strnlen
    outs = S.run("buzzvm_set_bcode", [S.V.vm, b, n])
    C.assume("string scans of set_bcode are recognised through memchr()/strnlen(); an open-coded scan is bounded by its own loads")
    C.ob("load-bytecode", "set_bcode")
    for o in outs:
        if o.ret is I(v.READY):
            C.ob("load-result", "set_bcode")


MINIMA = {"fetch": 48, "fetch-read": 60, "load-bytecode": 4}
