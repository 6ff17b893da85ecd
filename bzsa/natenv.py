"""Environment for C closures and message processing: a symbolic VM whose interface operations (call, return, clone,
message queues, swarm table) are replaced by their documented effects and recorded as events."""
from .terms import *
from .absint import Interp, INF
from .vmenv import VM, vm_models
from .vmspec import fold


def fields(C, name):
    return {f["name"]: f["off"] for f in C.prog.di[name]["fields"]}


class Nat:
    def __init__(s, C, s0=0, keep=(), opaque=True, recursion=0):
        s.C = C
        s.v = v = C.env
        m = vm_models(v)
        s.dd, s.da = m["_dd"], m["_da"]
        s.dd.canon = True
        s.e = e = Interp(C.prog, m)
        e.recursion = recursion
        s.V = VM(v, e)
        s.st = s.V.st
        s.vm = s.V.vm
        s.V.S0 = I(s0) if isinstance(s0, int) else s0
        s.V.darray(s.V.stack, s.V.S0)
        s.base = s.V.S0
        s.VE = fields(C, "buzzvstig_elem_s")
        s.VS = fields(C, "buzzvstig_s")
        s.MT = {k[len("BUZZMSG_"):]: x for k, x in C.prog.enumvals.items() if k.startswith("BUZZMSG_")}
        mod = {"buzzvm_ret0": s.ret0, "buzzvm_ret1": s.ret1, "buzzvm_closure_call": s.ccall, "buzzheap_clone": s.clone,
               "buzzoutmsg_queue_append_vstig": s.out_vstig, "buzzoutmsg_queue_append_broadcast": s.rec("out_bc"),
               "buzzoutmsg_queue_append_swarm_joinleave": s.rec("out_jl"), "buzzoutmsg_queue_append_swarm_list": s.rec("out_list"),
               "buzzswarm_members_join": s.rec("m_join"), "buzzswarm_members_leave": s.rec("m_leave"),
               "buzzswarm_members_refresh": s.rec("m_refresh"), "buzzswarm_members_update": s.rec("m_update"),
               "buzzvm_function_register": s.freg, "buzzheap_obj_mark": s.rec("mark")}
        for k, f in mod.items():
            if k not in keep:
                e.models[k] = f
        for k, ks, f in (("vstigs", 2, None), ("swarms", 2, None), ("swarmmembers", 2, None), ("listeners", 2, None),
                         ("inmsgs", 2, None), ("gsyms", 4, None)):
            if k in v.VM:
                s.st.ghost[("dks", mk("vmf", k))] = ks

    # ---- models -------------------------------------------------------------------
    def rec(s, name):
        def m(e, st, args, fn, ins):
            st.ev_add(name, *args)
            return st, (None if ins["ty"] == "void" else e.fresh(st, e.site(fn, ins), ins["ty"]))
        return m

    def freg(s, e, st, args, fn, ins):
        return st, mk("fid", args[1], width="u")

    def ret0(s, e, st, args, fn, ins):
        st.ev_add("ret", None)
        return st, s.V.get(st, "state", "i32")

    def ret1(s, e, st, args, fn, ins):
        n = s.V.asize(st, s.V.get(st, "stack", "ptr"))
        if st.ev(icmp("sge", n, ONE)) is not True:
            st.ev_add("ret_underflow")
            return st, s.V.get(st, "state", "i32")
        st.ev_add("ret", s.V.top(st))
        return st, s.V.get(st, "state", "i32")

    def clone(s, e, st, args, fn, ins):
        o = e.new_obj(st, e.site(fn, ins), kind="clone")
        e.store(st, o, e.load(st, args[1], "i16"), "i16")
        st.ghost[("cloneof", o)] = st.ghost.get(("cloneof", args[1]), args[1])
        ty = st.simp(e.load(st, args[1], "i16"))
        for t, offs in ((s.v.INT, ((s.v.vi, "i32"),)), (s.v.FLOAT, ((s.v.vf, "f32"),)), (s.v.STRING, ((s.v.sv["sid"], "i16"), (s.v.sv["str"], "ptr")))):
            if ty is I(t):
                for off, w in offs:
                    e.store(st, addc(o, off), e.load(st, addc(args[1], off), w), w)
        st.ev_add("clone", o, args[1])
        return st, o

    def src(s, st, o):
        """the object a clone was made of"""
        return st.ghost.get(("cloneof", o), o)

    def elem(s, st, p):
        """(data, timestamp, robot) of a stigmergy element"""
        e = s.e
        return (st.simp(e.load(st, addc(p, s.VE["data"]), "ptr")), fold(st, e.load(st, addc(p, s.VE["timestamp"]), "i16")),
                fold(st, e.load(st, addc(p, s.VE["robot"]), "i16")))

    def out_vstig(s, e, st, args, fn, ins):
        d, t, r = s.elem(st, args[4])
        st.ev_add("out_vs", fold(st, args[1]), fold(st, args[2]), args[3], s.src(st, d), t, r)
        return st, None

    def havoc(s, st):
        """a script ran: anything it can reach may have changed"""
        for x in list(st.ghost):
            if isinstance(x, tuple) and x[0] == "d":
                dt = x[1]
                if not any(a.op in ("new", "tabdict") for a in atoms(dt)):
                    s.dd.bump(st, dt)

    def ccall(s, e, st, args, fn, ins):
        n = st.simp(args[1])
        if n.op != "i":
            from .ir import AnalysisError
            raise AnalysisError("closure called with an unknown number of arguments in %s" % fn.name)
        n = n.a[0]
        stk = s.V.get(st, "stack", "ptr")
        sz = s.V.asize(st, stk)
        if st.ev(icmp("sge", sz, I(n + 1))) is not True:
            st.ev_add("call_underflow", n)
        a = tuple(s.V.top(st, i, stk) for i in range(n, 0, -1))
        c = s.V.top(st, n + 1, stk)
        st.ev_add("ccall", c, a)
        s.onccall(st, c, a)
        e.store(st, addc(stk, s.v.DA["size"]), addc(sz, -n - 1), "i64")
        s.havoc(st)
        bad = st.copy()
        e.store(bad, addc(s.vm, s.v.VM["state"]), I(s.v.ERROR), "i32")
        er = mk("callerr", width=32)
        bad.facts[er] = (1, INF, frozenset())
        e.store(bad, addc(s.vm, s.v.VM["error"]), er, "i32")
        e.store(bad, addc(s.vm, s.v.VM["errormsg"]), e.new_obj(bad, ("errmsg",)), "ptr")
        bad.ev_add("callfail")
        r = e.new_obj(st, e.site(fn, ins), kind="result")
        st.ev_add("result", r)
        e.store(st, add(e.load(st, addc(stk, s.v.DA["data"]), "ptr"), scale(addc(sz, -n - 1), 8)), r, "ptr")
        e.store(st, addc(stk, s.v.DA["size"]), addc(sz, -n), "i64")
        return [(st, I(s.v.READY)), (bad, I(s.v.ERROR))]

    def onccall(s, st, c, a):
        pass

    # ---- set-up -------------------------------------------------------------------
    def frame(s, nargs, swarm=None):
        ls, da, n = s.V.frame(nargs + 1, swarm)
        s.V.set("lsyms", ls, "ptr")
        s.args = []
        for i in range(nargs + 1):
            o = s.V.obj("self" if i == 0 else "a%d" % i)
            s.V.arrput(da, I(i), o)
            s.args.append(o)
        return s.args

    def settype(s, o, ty):
        s.e.store(s.st, o, I(ty), "i16")

    def dict(s, field, empty=False):
        d = mk("vmf", field)
        if empty:
            s.st.ghost[("dempty", d)] = True
        return d

    def vstig(s, i, n=0):
        """a stigmergy registered under term i; returns (struct, data dict)"""
        st = s.st
        d = mk("vmf", "vstigs")
        st.ghost[("d", d, i)] = "yes"
        cell = s.dd.cell(d, i)
        st.facts[cell] = (1, INF, frozenset())
        vs = mk("vstig", n)
        st.facts[vs] = (1, INF, frozenset())
        s.e.store(st, cell, vs, "ptr")
        data = mk("vsdata", n)
        st.facts[data] = (1, INF, frozenset())
        st.ghost[("dks", data)] = 8
        s.e.store(st, addc(vs, s.VS["data"]), data, "ptr")
        return vs, data

    def velem(s, data, key, name="l"):
        """element present under key; returns the element"""
        st = s.st
        st.ghost[("d", data, key)] = "yes"
        cell = s.dd.cell(data, key)
        st.facts[cell] = (1, INF, frozenset())
        el = mk("velem", name)
        st.facts[el] = (1, INF, frozenset())
        s.e.store(st, cell, el, "ptr")
        d = s.V.obj("data_" + name)
        s.e.store(st, addc(el, s.VE["data"]), d, "ptr")
        s.e.store(st, addc(el, s.VE["timestamp"]), mk("ts", name, width=16), "i16")
        s.e.store(st, addc(el, s.VE["robot"]), mk("rob", name, width=16), "i16")
        return el

    def run(s, fn, args=None):
        s.pre = s.st.copy()
        f = s.C.prog.need(fn)
        outs = s.e.run(f, args if args is not None else [s.vm], s.st)
        s.C.absorb(s.e)
        s.fn = f
        s.where = "%s:%s" % (f.file, f.name)
        return outs

    # ---- inspection ---------------------------------------------------------------
    def evs(s, st, *names):
        return [x for x in flat(st.events) if x[0] in names]

    def state(s, st):
        return s.V.get(st, "state", "i32")

    def error(s, st):
        return s.V.get(st, "error", "i32")

    def depth(s, st):
        return s.V.asize(st, s.V.stack)


def flat(evs):
    for x in evs:
        if x[0] == "LOOP":
            for y in flat(sorted(x[2], key=str)):
                yield y
        else:
            yield x


class Safe(Nat):
    """Nat plus a typestate for heap blocks: live -> freed; loads, stores and frees of freed blocks are recorded."""

    def __init__(s, C, **k):
        Nat.__init__(s, C, **k)
        e = s.e
        e.hooks["load"] = lambda e, fn, ins, st, a: s.touch(st, a, fn, ins, "read")
        e.hooks["store"] = lambda e, fn, ins, st, a, v: s.touch(st, a, fn, ins, "written")
        e.models["free"] = s.free
        e.models["buzzdict_set"] = s.dset
        e.models["buzzdict_remove"] = s.dremove
        e.models["buzzdict_destroy"] = s.ddestroy
        e.models["buzzdict_rawget"] = s.drawget
        s.bad = []

    def touch(s, st, a, fn, ins, what):
        a = st.simp(a)
        for b, k in lin_parts(a)[1]:
            if k == 1 and ("freed", b) in st.ghost:
                st.ev_add("uaf", b, "%s:%s" % (fn.file, ins.get("line")), what)

    def release(s, st, p, fn, ins):
        p = st.simp(p)
        if p is ZERO:
            return
        if ("freed", p) in st.ghost:
            st.ev_add("uaf", p, "%s:%s" % (fn.file, ins.get("line")), "freed again")
        st.ghost[("freed", p)] = True

    def free(s, e, st, args, fn, ins):
        s.release(st, args[0], fn, ins)
        st.ev_add("free", st.simp(args[0]))
        return st, None

    def owned(s, st, dt):
        """data dictionaries of stigmergies own their elements"""
        return dt.op == "vsdata"

    def drawget(s, e, st, args, fn, ins):
        s.touch(st, args[1], fn, ins, "read")
        return s.dd.rawget(e, st, args, fn, ins)

    def dset(s, e, st, args, fn, ins):
        dt = args[0]
        old = None
        s.touch(st, args[1], fn, ins, "read")
        s.touch(st, args[2], fn, ins, "read")
        k = s.dd.key(e, st, args[1], dt)
        out = []
        for s1, pres in s.dd.lookup(e, st, dt, k):
            old = e.load(s1, s.dd.cell(dt, k, s1), "ptr") if pres and s.owned(s1, dt) else None
            for s2, r in e.norm(s.dd.set(e, s1, args, fn, ins), s1):
                if s.owned(s2, dt):
                    if old is not None:
                        s.release(s2, old, fn, ins)
                    v = st.simp(e.load(s2, s.dd.cell(dt, k, s2), "ptr"))
                    if ("freed", v) in s2.ghost:
                        s2.ev_add("uaf", v, "%s:%s" % (fn.file, ins.get("line")), "stored although freed")
                    s2.ghost[("stored", v)] = True
                    d, t, r0 = s.elem(s2, v)
                    s2.ev_add("vset", dt, k, v, d, t, r0)
                out.append((s2, r))
        return out

    def dremove(s, e, st, args, fn, ins):
        dt = args[0]
        s.touch(st, args[1], fn, ins, "read")
        k = s.dd.key(e, st, args[1], dt)
        out = []
        for s1, pres in s.dd.lookup(e, st, dt, k):
            if pres and s.owned(s1, dt):
                s.release(s1, e.load(s1, s.dd.cell(dt, k, s1), "ptr"), fn, ins)
                s1.ev_add("vremove", dt, k)
            if pres and dt is mk("vmf", "vstigs"):
                s1.ghost[("freed", st.simp(e.load(s1, s.dd.cell(dt, k, s1), "ptr")))] = True
                s1.ev_add("vstig_gone", k)
            out += e.norm(s.dd.remove(e, s1, args, fn, ins), s1)
        return out

    def ddestroy(s, e, st, args, fn, ins):
        return s.dd.destroy(e, st, args, fn, ins)

    def uaf(s, st):
        return [x for x in flat(st.events) if x[0] == "uaf"]


class Msg(Safe):
    """one incoming message with the given payload bytes; serialized objects are single opaque bytes ('obj' entries)"""

    def __init__(s, C, **k):
        Safe.__init__(s, C, **k)
        s.buf = mk("payload")
        st = s.st
        st.facts[s.buf] = (1, INF, frozenset())
        s.rid = mk("rid", width=16)
        s.inq = mk("vmf", "inmsgs")
        s.e.store(st, addc(s.inq, s.v.DD["size"]), ONE, "i32")
        s.e.models["buzzinmsg_queue_extract"] = s.extract
        s.e.models["buzzdarray_destroy"] = s.dadestroy
        s.objs = {}
        s.e.models["buzzobj_deserialize"] = s.deser

    def payload(s, items):
        """items: (term, width in bytes) most significant byte first, or an object"""
        pos = 0
        d = mk("dadata", s.buf)
        for it in items:
            if isinstance(it, tuple):
                t, n = it
                for j in range(n):
                    s.e.store(s.st, addc(d, pos + j), byte(t, n - 1 - j), "i8")
                pos += n
            else:
                s.objs[pos] = it
                pos += 1
        s.V.darray(s.buf, I(pos), 1)
        s.end = pos

    def extract(s, e, st, args, fn, ins):
        e.store(st, args[1], s.rid, "i16")
        e.store(st, args[2], s.buf, "ptr")
        e.store(st, addc(s.inq, s.v.DD["size"]), ZERO, "i32")
        st.ev_add("extract")
        return st, ONE

    def dadestroy(s, e, st, args, fn, ins):
        da = st.simp(e.load(st, args[0], "ptr"))
        if da is s.buf:
            s.release(st, da, fn, ins)
        st.ev_add("da_destroy", da)
        e.store(st, args[0], ZERO, "ptr")
        return st, None

    def deser(s, e, st, args, fn, ins):
        pos = st.simp(args[2])
        st.ev_add("deser", pos)
        if pos.op == "i" and pos.a[0] in s.objs and st.simp(args[1]) is s.buf:
            e.store(st, args[0], s.objs[pos.a[0]], "ptr")
            return st, addc(pos, 1)
        return st, I(-1)


class Fun(Safe):
    """a C closure called with a given number of arguments; self is a table whose 'id' is an int"""

    def __init__(s, C, nargs, selfid=True, **k):
        Safe.__init__(s, C, **k)
        s.frame(nargs)
        s.self = s.args[0]
        s.d0 = mk("selfdict")
        s.st.facts[s.d0] = (1, INF, frozenset())
        s.st.ghost[("dks", s.d0)] = 8
        if selfid:
            s.settype(s.self, s.v.TABLE)
            s.e.store(s.st, addc(s.self, s.v.vt), s.d0, "ptr")
            s.id, s.ido = s.intobj("id")
            s.field(s.d0, "id", s.ido)

    def skey(s, name):
        return mk("skey", mk("sid", mk("str", name.encode()), width=16))

    def intobj(s, name, lo=0, hi=65535):
        o = s.V.obj("int_" + name, s.v.INT)
        x = mk("val", name, width=32)
        if hi is not None:
            s.st.facts[x] = (lo, hi, frozenset())
        s.e.store(s.st, addc(o, s.v.vi), x, "i32")
        return x, o

    def field(s, d, name, o):
        k = s.skey(name)
        s.st.ghost[("d", d, k)] = "yes" if o is not None else "no"
        if o is not None:
            c = s.dd.cell(d, k)
            s.st.facts[c] = (1, INF, frozenset())
            s.e.store(s.st, c, o, "ptr")

    def arg(s, i, o):
        """bind argument i (1-based)"""
        da = mk("symsda", "lsyms")
        s.V.arrput(da, I(i), o)
        s.args[i] = o
        return o

    def intarg(s, i, name, hi=65535):
        x, o = s.intobj(name, 0, hi)
        s.arg(i, o)
        return x

    def anytype(s, o, lo=0, hi=6):
        t = s.e.load(s.st, o, "i16")
        s.st.facts[t] = (lo, hi, frozenset())
        return t

    def membership(s, x, val):
        """this robot's entry for swarm x: None unknown, else a byte term"""
        d = mk("vmf", "swarms")
        s.st.ghost[("d", d, x)] = "yes" if val is not None else "no"
        if val is not None:
            c = s.dd.cell(d, x)
            s.st.facts[c] = (1, INF, frozenset())
            s.e.store(s.st, c, val, "i8")

    def dictval(s, st, d, k, ty):
        """final entry: 'no', '?' (never looked at) or its value"""
        g = st.ghost.get(("d", d, k))
        if g != "yes":
            return g or "?"
        return fold(st, st.simp(s.e.load(st, s.dd.cell(d, k, st), ty)))

    EFF = ("dset", "dremove", "out_vs", "out_bc", "out_jl", "out_list", "m_join", "m_leave", "m_refresh", "m_update", "ccall", "vset", "vremove",
           "vstig_gone")

    def effects(s, st):
        r = []
        for x in s.evs(st, *s.EFF):
            if x[0] in ("dset", "dremove") and not (x[1].op == "vmf" or x[1].op == "selfdict"):
                continue
            r.append(x)
        return r

    def result(s, o):
        """('error', code) or ('ok', returned object) or ('bad', why)"""
        st = o.st
        state = s.state(st)
        rets = s.evs(st, "ret")
        if o.ret is not None and fold(st, st.simp(o.ret)) is not fold(st, state):
            return "bad", "returns %s although the state is %s" % (show(st.simp(o.ret)), show(state))
        if s.evs(st, "ret_underflow", "call_underflow"):
            return "bad", "uses a stack slot that does not exist"
        u = s.uaf(st)
        if u:
            return "bad", "%s is %s after it was released (%s)" % (show(u[0][1]), u[0][3], u[0][2])
        if state is I(s.v.ERROR):
            return "error", s.error(st)
        if state is not I(s.v.READY):
            return "bad", "ends in state %s" % show(state)
        if len(rets) != 1:
            return "bad", "returns %d times" % len(rets)
        return "ok", rets[0][1]

    def jl(s, st):
        return [(x[2].a[0] if x[2].op == "i" else x[2], fold(st, x[3])) for x in s.evs(st, "out_jl")]


def expect_error(C, rule, inst, N, o, codes, where=None, eff=()):
    """the closure must raise one of the errors and do nothing else"""
    k, x = N.result(o)
    C.ob(rule, inst)
    names = {v: n for n, v in N.v.E.items()}
    if k != "error" or x.op != "i" or names.get(x.a[0]) not in codes:
        C.fail(rule, inst, where or N.where, "expected error %s, found %s %s" % ("/".join(codes), k, x if isinstance(x, str) else
               "nil" if x is None else names.get(x.a[0], show(x)) if k == "error" and x.op == "i" else show(x)), o.st.trail)
    e = N.effects(o.st)
    if e:
        C.fail(rule, inst, where or N.where, "has the effect %s before failing" % e[0][0], o.st.trail)


def arity(C, rule, fn, ok, maxn=4, selfid=True):
    """every argument count outside ok is an error without effects"""
    for n in range(0, maxn + 1):
        if n in ok:
            continue
        N = Fun(C, n, selfid)
        for o in N.run(fn):
            expect_error(C, rule, "%s with %d arguments" % (fn, n), N, o, ("LNUM",))


def badself(C, rule, fn, nargs, prep=None):
    """self is not a table, has no id, or an id that is not an int"""
    for case in ("not a table", "without id", "with an id of another type"):
        N = Fun(C, nargs)
        if prep:
            prep(N)
        if case == "not a table":
            N.anytype(N.self)
            N.st.mem.pop(N.self, None)
            t = N.e.load(N.st, N.self, "i16")
            N.st.facts[t] = (0, 6, frozenset([N.v.TABLE]))
        elif case == "without id":
            N.field(N.d0, "id", None)
        else:
            o2 = N.V.obj("badid")
            t = N.e.load(N.st, o2, "i16")
            N.st.facts[t] = (0, 6, frozenset([N.v.INT]))
            N.field(N.d0, "id", o2)
        for o in N.run(fn):
            expect_error(C, rule, "%s on a self %s" % (fn, case), N, o, ("TYPE",))


def nottype(N, i, tys, name="badarg"):
    """bind argument i to an object of any type but tys"""
    o = N.V.obj(name + str(i))
    t = N.e.load(N.st, o, "i16")
    N.st.facts[t] = (0, 6, frozenset(tys))
    return N.arg(i, o)
