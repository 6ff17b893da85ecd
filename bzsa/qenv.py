"""Outgoing message queues with concrete lengths and symbolic messages."""
from .terms import *
from .absint import INF
from .natenv import Safe, fields
from .vmspec import fold

KINDS = ("BROADCAST", "SWARM_LIST", "VSTIG_PUT", "VSTIG_QUERY", "SWARM_JOIN", "SWARM_LEAVE")


class Q(Safe):
    def __init__(s, C):
        Safe.__init__(s, C, keep=("buzzoutmsg_queue_append_vstig", "buzzoutmsg_queue_append_broadcast",
                                  "buzzoutmsg_queue_append_swarm_joinleave", "buzzoutmsg_queue_append_swarm_list"))
        e, st = s.e, s.st
        e.unroll = 10
        s.F = {k: fields(C, "buzzoutmsg_%s_s" % k) for k in ("broadcast", "swarm", "vstig")}
        s.OQ = fields(C, "buzzoutmsg_queue_s")
        s.om = mk("vmf", "outmsgs")
        s.vd = mk("outvs")
        st.facts[s.vd] = (1, INF, frozenset())
        st.ghost[("dks", s.vd)] = 2
        e.store(st, addc(s.om, s.OQ["vstig"]), s.vd, "ptr")
        s.q = {}
        for k in KINDS:
            da = mk("queue", k)
            st.facts[da] = (1, INF, frozenset())
            e.store(st, addc(s.om, s.OQ["queues"] + 8 * s.MT[k]), da, "ptr")
            s.V.darray(da, ZERO, 8)
            s.q[k] = da
        s.known = set()
        e.models["buzzdarray_remove"] = s.qremove
        e.models["buzzdarray_clear"] = s.qclear
        e.models["buzzdarray_find"] = s.qfind
        e.models["realloc"] = s.realloc
        e.models["malloc"] = s.malloc
        e.hooks["memcpy"] = s.cpy
        touch = s.touch
        e.hooks["load"] = lambda e, fn, ins, st, a: (s.touch(st, a, fn, ins, "read"), s.within(st, a, ins, fn))
        e.hooks["store"] = lambda e, fn, ins, st, a, v: (s.touch(st, a, fn, ins, "written"), s.within(st, a, ins, fn))

    # ---- blocks of known size
    def malloc(s, e, st, args, fn, ins):
        t = e.new_obj(st, e.site(fn, ins))
        n = st.simp(args[0])
        if n.op == "i":
            st.ghost[("blk", t)] = n.a[0]
        return st, t

    def realloc(s, e, st, args, fn, ins):
        p = st.simp(args[0])
        t = e.new_obj(st, e.site(fn, ins))
        s.touch(st, p, fn, ins, "resized")
        for a in list(st.mem):
            d = sub(a, p)
            if d.op == "i" and 0 <= d.a[0] < 4096:
                st.mem[addc(t, d.a[0])] = st.mem[a]
        n = st.simp(args[1])
        if n.op == "i":
            st.ghost[("blk", t)] = n.a[0]
        s.release(st, p, fn, ins)
        return st, t

    def within(s, st, a, ins, fn, n=None):
        a = st.simp(a)
        c, parts = lin_parts(a)
        if len(parts) != 1 or parts[0][1] != 1:
            return
        z = st.ghost.get(("blk", parts[0][0]))
        if z is None:
            return
        if n is None:
            n = {"i8": 1, "i16": 2, "i32": 4}.get(ins.get("ty") if ins.get("op") == "load" else None, 1)
        if c < 0 or c + n > z:
            st.ev_add("outside", parts[0][0], c, n, z)

    def cpy(s, e, st, dst, src, n):
        n = st.simp(n)
        if n.op == "i" and n.a[0]:
            for p in (dst, src):
                s.within(st, p, {}, None, n.a[0])

    # ---- queues
    def isq(s, da):
        return da in s.q.values()

    def qremove(s, e, st, args, fn, ins):
        da = st.simp(args[0])
        n, pos = s.V.asize(st, da), st.simp(args[1])
        if s.isq(da) and n.op == "i" and pos.op == "i":
            if 0 <= pos.a[0] < n.a[0]:
                s.release(st, s.V.aget(st, da, pos), fn, ins)
        return s.da.remove(e, st, args, fn, ins)

    def qclear(s, e, st, args, fn, ins):
        da = st.simp(args[0])
        n = s.V.asize(st, da)
        if s.isq(da) and n.op == "i":
            for i in range(n.a[0]):
                s.release(st, s.V.aget(st, da, I(i)), fn, ins)
        return s.da.clear(e, st, args, fn, ins)

    def qfind(s, e, st, args, fn, ins):
        da = st.simp(args[0])
        n = s.V.asize(st, da)
        s.touch(st, args[2], fn, ins, "read")
        x = st.simp(e.load(st, args[2], "ptr"))
        st.ev_add("qfind", args[1])
        if not s.isq(da) or n.op != "i":
            return s.da.find(e, st, args, fn, ins)
        for i in range(n.a[0]):
            if s.V.aget(st, da, I(i)) is x:
                return st, I(i)
        return st, n

    # ---- set-up
    def msg(s, kind, name):
        st, e = s.st, s.e
        m = mk("msg", kind, name)
        st.facts[m] = (1, INF, frozenset())
        e.store(st, m, I(s.MT[kind]), "i32")
        return m

    def enqueue(s, kind, m):
        da = s.q[kind]
        n = s.V.asize(s.st, da).a[0]
        s.V.arrput(da, I(n), m)
        s.e.store(s.st, addc(da, s.v.DA["size"]), I(n + 1), "i64")

    def bc(s, name):
        m = s.msg("BROADCAST", name)
        f = s.F["broadcast"]
        t, x = s.V.obj("topic%s" % name, s.v.STRING), s.V.obj("bcval%s" % name)
        s.e.store(s.st, addc(m, f["topic"]), t, "ptr")
        s.e.store(s.st, addc(m, f["value"]), x, "ptr")
        s.enqueue("BROADCAST", m)
        return m

    def sw(s, kind, name, ids):
        m = s.msg(kind, name)
        f = s.F["swarm"]
        b = mk("idsblk", kind, name)
        s.st.facts[b] = (1, INF, frozenset())
        s.st.ghost[("blk", b)] = 2 * len(ids)
        s.e.store(s.st, addc(m, f["ids"]), b, "ptr")
        s.e.store(s.st, addc(m, f["size"]), I(len(ids)), "i16")
        for i, x in enumerate(ids):
            s.e.store(s.st, addc(b, 2 * i), x, "i16")
        s.enqueue(kind, m)
        return m

    def vs(s, kind, name, idt=None, key=None):
        st, e = s.st, s.e
        m = s.msg(kind, name)
        f = s.F["vstig"]
        idt = mk("mvid", kind, name, width=16) if idt is None else idt
        if key is None:
            key = s.V.obj("mkey%s%s" % (kind, name), s.v.INT)
            e.store(st, addc(key, s.v.vi), mk("mkv", kind, name, width=32), "i32")
        el, d = mk("melem", kind, name), s.V.obj("mdata%s%s" % (kind, name))
        st.facts[el] = (1, INF, frozenset())
        for fld, t, w in (("data", d, "ptr"), ("timestamp", mk("mts", kind, name, width=16), "i16"), ("robot", mk("mrob", kind, name, width=16), "i16")):
            e.store(st, addc(el, s.VE[fld]), t, w)
        for fld, t, w in (("id", idt, "i16"), ("key", key, "ptr"), ("data", el, "ptr")):
            e.store(st, addc(m, f[fld]), t, w)
        s.enqueue(kind, m)
        return m

    def vsdict(s, idt, name="D"):
        """the stigmergy's duplicate index"""
        d = mk("outvsd", name)
        st = s.st
        st.facts[d] = (1, INF, frozenset())
        st.ghost[("d", s.vd, idt)] = "yes"
        c = s.dd.cell(s.vd, idt)
        st.facts[c] = (1, INF, frozenset())
        s.e.store(st, c, d, "ptr")
        st.ghost[("dks", d)] = 8
        return d

    def vsindex(s, d, key, m):
        st = s.st
        st.ghost[("d", d, key)] = "yes" if m is not None else "no"
        if m is not None:
            c = s.dd.cell(d, key)
            st.facts[c] = (1, INF, frozenset())
            s.e.store(st, c, m, "ptr")

    # ---- inspection
    def msgs(s, st, kind):
        da = s.q[kind]
        n = s.V.asize(st, da)
        if n.op != "i":
            return None
        return [s.V.aget(st, da, I(i)) for i in range(n.a[0])]

    def all(s, st):
        return {k: s.msgs(st, k) for k in KINDS}

    def ids(s, st, m):
        f = s.F["swarm"]
        n = fold(st, s.e.load(st, addc(m, f["size"]), "i16"))
        b = st.simp(s.e.load(st, addc(m, f["ids"]), "ptr"))
        if n.op != "i" or ("freed", b) in st.ghost:
            return None
        z = st.ghost.get(("blk", b))
        if z is not None and z < 2 * n.a[0]:
            return None
        return [fold(st, s.e.load(st, addc(b, 2 * i), "i16")) for i in range(n.a[0])]

    def problems(s, st):
        u = s.uaf(st)
        if u:
            return "%s is %s after it was released (%s)" % (show(u[0][1]), u[0][3], u[0][2])
        o = s.evs(st, "outside")
        if o:
            return "%d bytes at offset %d of a block of %d bytes are accessed" % (o[0][3], o[0][2], o[0][4])
        return None
