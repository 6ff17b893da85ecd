"""Native functions that call back into scripts: collections with concrete entries, and a garbage collection at every such call."""
from .terms import *
from .absint import INF
from .natenv import Fun, Msg, flat
from .vmspec import fold


class Gc:
    """At every call of a script function, objects that are reachable neither from the stack below the call's operands nor from the
    current frame are considered collected, and elements of containers the script can modify are considered removed."""

    def gcinit(s, gc=True):
        s.dogc = gc
        s.volatile = set()      # objects held only by containers that scripts can change
        s.vcells = set()        # cells of such containers
        cb = s.dd.callback

        def visit(e, st, f, args, fn, ins):
            # an element is visited only while it is in its container
            for p in args[:2]:
                st.ghost.pop(("freed", st.simp(p)), None)
                c = st.mem.get(st.simp(p))
                if c is not None and c[0] in s.volatile:
                    st.ghost.pop(("freed", c[0]), None)
            return cb(e, st, f, args, fn, ins)
        s.dd.callback = visit
        s.e.models["buzzheap_newobj"] = s.newobj(s.e.models["buzzheap_newobj"])

    def newobj(s, base):
        def m(e, st, args, fn, ins):
            r = base(e, st, args, fn, ins)
            st2, o = r
            st2.ghost[("heap", o)] = True
            return st2, o
        return m

    def clone(s, e, st, args, fn, ins):
        st, o = super().clone(e, st, args, fn, ins)
        st.ghost[("heap", o)] = True
        return st, o

    # ---- collection
    def reach(s, st, roots):
        e, v = s.e, s.v
        seen, todo = set(), list(roots)
        while todo:
            o = st.simp(todo.pop())
            if o in seen or o.op == "i":
                continue
            seen.add(o)
            d = st.mem.get(addc(o, v.vt))
            if d is not None:
                d = st.simp(d[0])
                for g, val in st.ghost.items():
                    if isinstance(g, tuple) and g[0] == "d" and g[1] is d and val == "yes":
                        c = st.mem.get(s.dd.cell(d, g[2], st))
                        if c is not None:
                            todo.append(c[0])
                        ko = st.ghost.get(("keyobj", d, g[2]))
                        if ko is not None:
                            todo.append(ko)
            a = st.mem.get(addc(o, v.cl["actrec"]))
            if a is not None and a[1] == "ptr":
                a = st.simp(a[0])
                n = s.V.asize(st, a)
                if n.op == "i":
                    todo += [s.V.aget(st, a, I(i)) for i in range(n.a[0])]
        return seen

    def roots(s, st, n):
        stk = s.V.get(st, "stack", "ptr")
        sz = s.V.asize(st, stk)
        r = []
        if sz.op == "i":
            r += [s.V.aget(st, stk, I(i)) for i in range(max(0, sz.a[0] - n))]
        ls = s.V.get(st, "lsyms", "ptr")
        if ls.op != "i":
            da = st.simp(s.e.load(st, addc(ls, s.v.LS["syms"]), "ptr"))
            m = s.V.asize(st, da)
            if m.op == "i":
                r += [s.V.aget(st, da, I(i)) for i in range(m.a[0])]
        return r

    def onccall(s, st, c, a):
        if not s.dogc:
            return
        for x in (c,) + a:
            s.touchobj(st, x, "a call")
        live = s.reach(st, s.roots(st, len(a) + 1))
        cand = {g[1] for g in st.ghost if isinstance(g, tuple) and g[0] == "heap"} | s.volatile
        for o in cand:
            if o not in live:
                st.ghost[("freed", o)] = True
                d = st.mem.get(addc(o, s.v.vt))
                if d is not None and st.simp(d[0]).op == "tabdict":
                    st.ghost[("freed", st.simp(d[0]))] = True
        for c0 in s.vcells:
            st.ghost[("freed", c0)] = True

    def touchobj(s, st, o, where):
        o = st.simp(o)
        if ("freed", o) in st.ghost:
            st.ev_add("uaf", o, where, "used")

    def ccall(s, e, st, args, fn, ins):
        r = super().ccall(e, st, args, fn, ins)
        for s1, _ in r:
            for x in s.evs(s1, "result"):
                s1.ghost[("heap", x[1])] = True
        return r

    # ---- containers
    def dset(s, e, st, args, fn, ins):
        dt = st.simp(args[0])
        w = "%s:%s" % (fn.file, ins.get("line"))
        s.touch(st, dt, fn, ins, "written")
        c = st.mem.get(st.simp(args[1]))
        ko = c[0] if c is not None and c[1] == "ptr" else None
        if ko is not None:
            s.touchobj(st, ko, w)
        c = st.mem.get(st.simp(args[2]))
        if c is not None and c[1] == "ptr":
            s.touchobj(st, c[0], w)
        out = super().dset(e, st, args, fn, ins)
        for s1, _ in out:
            if ko is not None:
                k = s.dd.key(e, s1, args[1], dt)
                s1.ghost.setdefault(("keyobj", dt, k), ko)
        return out

    def dremove(s, e, st, args, fn, ins):
        c = st.mem.get(st.simp(args[1]))
        if c is not None and c[1] == "ptr":
            s.touchobj(st, c[0], "%s:%s" % (fn.file, ins.get("line")))
        return super().dremove(e, st, args, fn, ins)

    def ret1(s, e, st, args, fn, ins):
        n = s.V.asize(st, s.V.get(st, "stack", "ptr"))
        if st.ev(icmp("sge", n, ONE)) is True and s.state(st) is I(s.v.READY):
            for o in s.reach(st, [s.V.top(st)]):
                s.touchobj(st, o, "%s:%s" % (fn.file, ins.get("line")))
        return super().ret1(e, st, args, fn, ins)

    def drawget(s, e, st, args, fn, ins):
        c = st.mem.get(st.simp(args[1]))
        if c is not None and c[1] == "ptr":
            s.touchobj(st, c[0], "%s:%s" % (fn.file, ins.get("line")))
        return super().drawget(e, st, args, fn, ins)


class Cb(Gc, Fun):
    """a C closure"""

    def __init__(s, C, nargs, selfid=True, gc=True, **k):
        Fun.__init__(s, C, nargs, selfid, **k)
        s.gcinit(gc)

    # ---- tables with n entries
    def entries(s, name, n, kty=None):
        """[(key object, key term, data object)] with int keys of arbitrary value"""
        out = []
        for i in range(n):
            k = s.V.obj("%s_k%d" % (name, i), s.v.INT if kty is None else kty)
            x = mk("kv", name, i, width=32)
            s.e.store(s.st, addc(k, s.v.vi), x, "i32")
            d = s.V.obj("%s_d%d" % (name, i))
            out.append((k, mk("ikey", x), d))
            s.volatile |= {k, d}
        return out

    def tabobj(s, name, ents):
        o = s.V.obj(name, s.v.TABLE)
        d = mk("tdict", name)
        s.st.facts[d] = (1, INF, frozenset())
        s.st.ghost[("dks", d)] = 8
        s.e.store(s.st, addc(o, s.v.vt), d, "ptr")
        s.st.ghost[("dconc", d)] = tuple((k, "ptr", x, "ptr") for k, kt, x in ents)
        for i in range(len(ents)):
            s.vcells |= {mk("fekey", d, i), mk("fedata", d, i)}
        s.e.store(s.st, addc(d, s.v.DD["size"]), I(len(ents)), "i32")
        return o, d

    # ---- results
    def truth(s, st, r):
        """truth value of an object, None if not determined on this path"""
        v = s.v
        t = s.V.type_of(st, r)
        if st.ev(icmp("eq", t, I(v.NIL))) is True:
            return False
        isint = st.ev(icmp("eq", t, I(v.INT)))
        zero = st.ev(icmp("eq", s.V.ival(st, r), ZERO))
        if st.ev(icmp("eq", t, I(v.NIL))) is False and (isint is False or zero is False):
            return True
        if isint is True and zero is True:
            return False
        return None

    def isnil(s, st, r):
        return st.ev(icmp("eq", s.V.type_of(st, r), I(s.v.NIL)))

    def contents(s, st, o):
        """{key term: object} of a table created by the function"""
        d = st.simp(s.e.load(st, addc(o, s.v.vt), "ptr"))
        r = {}
        for g, val in st.ghost.items():
            if isinstance(g, tuple) and g[0] == "d" and g[1] is d and val == "yes":
                r[g[2]] = st.simp(s.e.load(st, s.dd.cell(d, g[2], st), "ptr"))
        return r

    def calls(s, st):
        """[(closure, args, result or None if the call failed)]"""
        out = []
        for x in flat(st.events):
            if x[0] == "ccall":
                out.append([x[1], x[2], None])
            elif x[0] == "result":
                out[-1][2] = x[1]
        return out


class GcMsg(Gc, Msg):
    """a received message whose values are heap objects nothing else refers to"""

    def __init__(s, C, **k):
        Msg.__init__(s, C, **k)
        s.gcinit()
        s.V.set("lsyms", ZERO, "ptr")

    def deser(s, e, st, args, fn, ins):
        r = Msg.deser(s, e, st, args, fn, ins)
        pos = st.simp(args[2])
        if pos.op == "i" and pos.a[0] in s.objs:
            st.ghost[("heap", s.objs[pos.a[0]])] = True
        return r

    def out_vstig(s, e, st, args, fn, ins):
        w = "%s:%s" % (fn.file, ins.get("line"))
        s.touchobj(st, args[3], w)
        s.touchobj(st, s.elem(st, args[4])[0], w)
        return super().out_vstig(e, st, args, fn, ins)
