"""Malformed messages. Every decoder is interpreted abstractly on a message of arbitrary size and content at an arbitrary position: each byte read
must be proved inside the message, and the result must be either a failure or a position further on, still inside the message, with a
well-typed object (nested values by induction: the recursive call is replaced by exactly this contract). Then
buzzvm_process_inmsgs is interpreted on an arbitrary message with the decoders replaced by their contract: on every path
on which some field cannot be decoded, has an inadmissible type, or the message kind is unknown, no effect may occur; the
message is released once and the machine stays ready with an unchanged stack."""
from bzsa.terms import *
from bzsa.absint import Interp, INF
from bzsa.vmenv import VM, vm_models
from bzsa.natenv import Msg, fields
from bzsa.vmspec import fold

EFFECTS = ("ccall", "vset", "vremove", "vstig_gone", "out_vs", "out_bc", "out_jl", "out_list", "m_join", "m_leave", "m_refresh", "conflict",
           "lost", "seterror", "dset", "dremove")


def contract(C, e, st, args, fn, ins, S, well=True):
    """outcomes of decoding an object at args[2]: failure, or an object of any type further on"""
    pos = args[2]
    bad = st.copy()
    bad.ev_add("decfail", "%s:%s" % (fn.file, ins.get("line")))
    r = [(bad, I(-1))]
    if st.bounds(pos)[1] < 0 or not st.assume(icmp("slt", pos, S), True):
        return r
    site = e.site(fn, ins)
    n = st.counts.get(("dec", site), 0)
    o = e.new_obj(st, site, kind="decoded")
    ty = mk("dectype", o, width=16)
    st.facts[ty] = (0, 6, frozenset())
    e.store(st, o, ty, "i16")
    e.store(st, args[0], o, "ptr")
    d = e.fresh(st, site + ("len",), "i64")
    p = add(pos, d)
    if not (st.assume(icmp("sge", d, ONE), True) and st.assume(icmp("sle", p, S), True)):
        return r
    st.ev_add("decoded", o)
    return r + [(st, p)]


class D:
    def __init__(s, C):
        s.C = C
        s.v = C.env
        s.e = Interp(C.prog, vm_models(s.v))
        s.V = VM(s.v, s.e)
        st = s.st = s.V.st
        s.buf = mk("payload")
        st.facts[s.buf] = (1, INF, frozenset())
        s.S = mk("psize", width="u")
        s.V.darray(s.buf, s.S, 1)
        s.e.store(st, addc(s.buf, s.v.DA["elem_size"]), ONE, "i32")
        s.pos = mk("pos", width="u")
        st.facts[s.pos] = (0, (1 << 32) - 1, frozenset())
        s.reads = 0
        s.e.hooks["load"] = s.load
        s.e.hooks["memcpy"] = s.copy
        s.rule = None
        s.e.models["malloc"] = s.malloc
        s.e.hooks["store"] = s.wstore
        s.dset0, s.new0 = s.e.models["buzzdict_set"], s.e.models["buzzheap_newobj"]
        s.e.models["buzzdict_set"] = s.dset
        s.e.models["buzzheap_newobj"] = s.newobj

    def newobj(s, e, st, args, fn, ins):
        lo, hi = st.bounds(args[1])
        s.C.ob("types", "%s: new object" % s.rule)
        if lo < 0 or hi > s.v.USERDATA:
            s.C.fail("types", "%s: new object" % s.rule, "%s:%s" % (fn.file, ins.get("line")), "an object of type %s is made" % show(args[1]), st.trail)
        return s.new0(e, st, args, fn, ins)

    def dset(s, e, st, args, fn, ins):
        k = st.simp(e.load(st, args[1], "ptr"))
        kt = s.V.type_of(st, k)
        s.C.ob("key-types", s.rule)
        for bad in (s.v.NIL, s.v.TABLE, s.v.CLOSURE, s.v.USERDATA):
            if st.ev(icmp("eq", kt, I(bad))) is not False:
                s.C.fail("key-types", s.rule, "%s:%s" % (fn.file, ins.get("line")), "a decoded %s can become a table key" % s.v.TN[bad], st.trail)
        return s.dset0(e, st, args, fn, ins)

    def malloc(s, e, st, args, fn, ins):
        o = e.new_obj(st, e.site(fn, ins))
        st.ghost[("asz", o)] = args[0]
        return st, o

    def wstore(s, e, fn, ins, st, a, v):
        a = st.simp(a)
        for b, k in lin_parts(a)[1]:
            n = st.ghost.get(("asz", b))
            if k == 1 and n is not None:
                i = sub(a, b)
                w = {"i8": 1, "i16": 2, "i32": 4}.get(ins["vty"], 8)
                s.C.ob("bounds", "%s: writes" % s.rule)
                if st.ev(icmp("sge", i, ZERO)) is not True or st.ev(icmp("sle", addc(i, w), n)) is not True:
                    s.C.fail("bounds", "%s: writes" % s.rule, "%s:%s" % (fn.file, ins.get("line")), "byte %s of a block of %s bytes is written" % (show(i), show(n)), st.trail)

    def inside(s, st, a, n, where):
        d = mk("dadata", s.buf)
        a = st.simp(a)
        p = dict(lin_parts(a)[1])
        if p.get(d) != 1:
            return
        i = sub(a, d)
        s.reads += 1
        s.C.ob("bounds", "%s: %s" % (s.rule, where))
        if st.ev(icmp("sge", i, ZERO)) is not True or st.ev(icmp("sle", add(i, n), s.S)) is not True:
            s.C.fail("bounds", "%s: %s" % (s.rule, where.split(":")[0]), where, "byte %s of a message of %s bytes is read" % (show(i), show(s.S)), st.trail)

    def load(s, e, fn, ins, st, a):
        s.inside(st, a, I({"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8}.get(ins["ty"], 1)), "%s:%s" % (fn.file, ins.get("line")))
        s.wild(e, fn, ins, st, a)

    def copy(s, e, st, dst, src, n):
        s.inside(st, src, n, s.rule)

    def wild(s, e, fn, ins, st, a):
        for b, k in lin_parts(st.simp(a))[1]:
            if k == 1 and b.op == "ld" and any(x.op == "alloca" for x in lin_atoms(b.a[0])):
                s.C.fail("uninitialized", "%s: %s" % (s.rule, fn.name), "%s:%s" % (fn.file, ins.get("line")),
                         "an object that was not decoded is used", st.trail)


def lin_atoms(t):
    return [a for a, k in lin_parts(t)[1]]


def decoders(C):
    prims = [("buzzmsg_deserialize_u8", 1), ("buzzmsg_deserialize_u16", 2), ("buzzmsg_deserialize_u32", 4), ("buzzmsg_deserialize_float", 8),
             ("buzzmsg_deserialize_string", None), ("buzzobj_deserialize", None), ("buzzvstig_elem_deserialize", None)]
    for name, width in prims:
        R = D(C)
        R.rule = name
        st = R.st
        f = C.prog.need(name)
        args = [mk("outp")]
        st.facts[args[0]] = (1, INF, frozenset())
        kinds = set()
        depth = [0]
        if name == "buzzvstig_elem_deserialize":
            el = mk("outelem")
            cell = mk("outelemcell")
            for t in (el, cell):
                st.facts[t] = (1, INF, frozenset())
            R.e.store(st, cell, el, "ptr")
            args += [cell]
        args += [R.buf, R.pos]
        if name in ("buzzobj_deserialize", "buzzvstig_elem_deserialize"):
            args += [R.V.vm]

            def rec(e, st, a, fn, ins):
                return contract(C, e, st, a, fn, ins, R.S)
            R.e.models["buzzobj_deserialize"] = rec
        R.e.recursion = 0
        for o in R.e.run(f, args, st):
            st = o.st
            C.ob("contract", name)
            ret = st.simp(o.ret)
            if ret.op == "i" and ret.a[0] < 0 or st.bounds(ret)[1] < 0:
                kinds.add("failure")
                continue
            kinds.add("success")
            if st.ev(icmp("sgt", ret, R.pos)) is not True or st.ev(icmp("sle", ret, R.S)) is not True:
                C.fail("contract", name, "%s:%s" % (f.file, f.name), "returns position %s, which is not between the start and the end of the message" % show(ret), st.trail)
            if width is not None and sub(ret, R.pos) is not I(width):
                C.fail("contract", name, "%s:%s" % (f.file, f.name), "consumes %s bytes" % show(sub(ret, R.pos)), st.trail)
            if [x for x in st.events if x[0] == "decfail"] or any(y[0] == "decfail" for x in st.events if x[0] == "LOOP" for y in x[2]):
                C.fail("contract", name, "%s:%s" % (f.file, f.name), "succeeds although a nested value could not be decoded", st.trail)
            if name == "buzzobj_deserialize":
                ob = st.simp(R.e.load(st, args[0], "ptr"))
                ty = R.V.type_of(st, ob)
                lo, hi = st.bounds(ty)
                if ob.op == "ld" or lo < 0 or hi > 6:
                    C.fail("contract", name, "%s:%s" % (f.file, f.name), "succeeds without a well-typed object (type %s)" % show(ty), st.trail)
            if name == "buzzvstig_elem_deserialize":
                k = st.simp(R.e.load(st, args[0], "ptr"))
                kt = R.V.type_of(st, k)
                C.ob("key-types", name)
                for bad in (R.v.CLOSURE, R.v.USERDATA):
                    if st.ev(icmp("eq", kt, I(bad))) is not False:
                        C.fail("key-types", name, "%s:%s" % (f.file, f.name), "a decoded %s becomes a stigmergy key" % R.v.TN[bad], st.trail)
        for s0, fn, line, what in R.e.exits:
            C.fail("no-abort", name, "%s:%s" % (fn.file, line), "a message can make the process end in %s()" % what, s0.trail)
        C.ob("no-abort", name)
        C.absorb(R.e)
        if kinds != {"failure", "success"}:
            C.fail("contract", name, "%s:%s" % (f.file, f.name), "only %s paths found" % sorted(kinds), ())
        if not R.reads and name != "buzzvstig_elem_deserialize":
            C.fail("contract", name, "%s:%s" % (f.file, f.name), "no read of the message was analysed", ())


def dispatch(C, bounded=None):
    """bounded: only messages of that kind, whose 16-bit counts and ids are at most 2, with all iterations of loops kept apart"""
    W = "buzzvm.c:buzzvm_process_inmsgs"
    N = Msg(C)
    st, e = N.st, N.e
    S = mk("psize", width="u")
    N.V.darray(N.buf, S, 1)
    R = D(C)
    R.S, R.st, R.buf, R.e, R.rule = S, st, N.buf, e, "buzzvm_process_inmsgs"

    def load(e, fn, ins, st, a):
        R.load(e, fn, ins, st, a)
        N.touch(st, a, fn, ins, "read")
    e.hooks["load"] = load
    e.hooks["memcpy"] = R.copy

    def obj(e, st, args, fn, ins):
        return contract(C, e, st, args, fn, ins, S)

    def prim(w):
        def m(e, st, args, fn, ins):
            bad = st.copy()
            bad.ev_add("decfail", "%s:%s" % (fn.file, ins.get("line")))
            r = [(bad, I(-1))]
            pos = args[2]
            if st.bounds(pos)[1] < 0 or not st.assume(icmp("sle", addc(pos, w), S), True):
                return r
            x = e.fresh(st, e.site(fn, ins) + ("val",), "i%d" % (8 * w))
            if bounded and w == 2:
                st.assume(icmp("ule", x, I(2)), True)
            e.store(st, args[0], x, "i%d" % (8 * w))
            return r + [(st, addc(pos, w))]
        return m

    def conflict(e, st, args, fn, ins):
        st.ev_add("conflict")
        return st, ZERO
    e.models["buzzobj_deserialize"] = obj
    for w in (1, 2, 4):
        e.models["buzzmsg_deserialize_u%d" % (8 * w)] = prim(w)
    e.models["buzzvstig_onconflict_call"] = conflict
    e.models["buzzdarray_makeslot"] = lambda e, st, args, fn, ins: (st, nn(st, mk("slot", args[0], args[1])))
    b0 = N.e.load(st, mk("dadata", N.buf), "i8")
    stats = {}
    if bounded:
        e.unroll = 8
        N.st.assume(icmp("ne", S, ZERO), True)
        N.st.assume(icmp("eq", b0, I(N.MT[bounded])), True)
    for o in N.run("buzzvm_process_inmsgs"):
        st = o.st
        fl = N.evs(st, *EFFECTS + ("decfail",))
        eff = [x for x in fl if x[0] != "decfail"]
        # failures in a summarised loop may belong to another iteration than the one the path ended with: see the bounded pass
        fails = [x for x in st.events if x[0] == "decfail"]
        empty = st.ev(icmp("eq", S, ZERO))
        kind = None
        for k, t in N.MT.items():
            if k != "TYPE_COUNT" and st.ev(icmp("eq", b0, I(t))) is True:
                kind = k
        wrong = None
        if empty is True:
            wrong = "empty message"
        elif fails:
            wrong = "%s truncated or malformed" % kind
        elif kind is None:
            wrong = "unknown message kind"
        if wrong is None and eff:
            dec = [x[1] for x in N.evs(st, "decoded")]
            tys = [N.V.type_of(st, x) for x in dec]
            if kind == "BROADCAST" and st.ev(icmp("eq", tys[0], I(N.v.STRING))) is not True:
                wrong = "BROADCAST whose topic is not a string"
            if kind in ("VSTIG_PUT", "VSTIG_QUERY"):
                for bad in (N.v.CLOSURE, N.v.USERDATA):
                    if st.ev(icmp("eq", tys[0], I(bad))) is not False:
                        wrong = "%s whose key is a %s" % (kind, N.v.TN[bad])
        inst = wrong or "%s well-formed" % kind
        stats[inst] = stats.get(inst, 0) + 1
        if wrong:
            C.ob("no-effect", inst)
            if eff:
                C.fail("no-effect", inst, W, "such a message still has the effect %s" % eff[0][0], st.trail)
        C.ob("vm-state", inst)
        if N.evs(st, "callfail"):
            continue
        if N.state(st) is not I(N.v.READY) or N.depth(st) is not ZERO:
            C.fail("vm-state", inst, W, "the message leaves state %s and stack depth %s" % (show(N.state(st)), show(N.depth(st))), st.trail)
        n = len([x for x in N.evs(st, "da_destroy") if x[1] is N.buf])
        if n != 1:
            C.fail("vm-state", inst, W, "the message is released %d times" % n, st.trail)
        for u in N.uaf(st):
            C.fail("vm-state", inst, u[2], "%s is %s after it was released" % (show(u[1]), u[3]), st.trail)
    for s0, fn, line, what in e.exits:
        C.fail("no-abort", "buzzvm_process_inmsgs", "%s:%s" % (fn.file, line), "a message can make the process end in %s()" % what, s0.trail)
    C.ob("no-abort", "buzzvm_process_inmsgs")
    for k in N.MT:
        if k == "TYPE_COUNT" or bounded not in (None, k):
            continue
        for w in ("%s truncated or malformed" % k, "%s well-formed" % k):
            if w not in stats:
                C.fail("no-effect", w, W, "no path handles this case", ())
    C.notes.append("paths per message class: %s" % ", ".join("%s=%d" % x for x in sorted(stats.items())))


def nn(st, t):
    st.facts[t] = (1, INF, frozenset())
    return t


def run(C):
    decoders(C)
    dispatch(C)
    dispatch(C, "SWARM_LIST")
    C.assume("messages are shorter than 2^32 bytes; nesting of received tables fits the C stack")


MINIMA = {"bounds": 10, "contract": 20, "no-effect": 7, "vm-state": 12, "no-abort": 8, "key-types": 2}
