"""Garbage collection. buzzheap_gc() is interpreted abstractly (with the marking functions, recursion included) on heaps in which every kind of root
refers to an object of every type, directly and through tables (values, keys), activation records, and cycles, interleaved with unreachable
objects, for symbolic and wrapping markers. Exactly the reachable objects must remain in the heap's list, exactly the strings of reachable objects
and listeners must be marked between clearing and pruning, and nothing freed may be touched. Separately: registration of new and cloned objects,
the storage released with an object, and that containers do not release the objects they refer to."""
from bzsa.terms import *
from bzsa.absint import INF
from bzsa.qenv import Q
from bzsa.natenv import Safe, fields
from bzsa.vmspec import fold

REAL = ("buzzheap_gc", "buzzheap_obj_mark")


class H(Q):
    def __init__(s, C, marker):
        Q.__init__(s, C)
        e, st, v = s.e, s.st, s.v
        for m in REAL:
            e.models.pop(m, None)
        e.recursion = 8
        e.inline_depth = 60
        e.unroll = 400
        s.heap = mk("vmf", "heap")
        s.m0 = marker
        e.store(st, addc(s.heap, v.HP["marker"]), marker, "i16")
        s.objs = mk("heapobjs")
        st.facts[s.objs] = (1, INF, frozenset())
        e.store(st, addc(s.heap, v.HP["objs"]), s.objs, "ptr")
        s.V.darray(s.objs, ZERO, 8)
        s.list = []
        s.sids = {}
        s.moff = fields(C, "buzzint_t")["marker"]
        for f in ("buzzstrman_gc_clear", "buzzstrman_gc_mark", "buzzstrman_gc_prune"):
            e.models[f] = s.rec(f[len("buzzstrman_"):])
        s.empty = set()
        for f in ("gsyms", "vstigs", "listeners"):
            st.ghost[("dconc", mk("vmf", f))] = ()

    def qremove(s, e, st, args, fn, ins):
        da = st.simp(args[0])
        n, pos = s.V.asize(st, da), st.simp(args[1])
        if da is s.objs and n.op == "i" and pos.op == "i" and 0 <= pos.a[0] < n.a[0]:
            o = s.V.aget(st, da, pos)
            s.release(st, o, fn, ins)
            st.ev_add("swept", o)
        return Q.qremove(s, e, st, args, fn, ins)

    def add(s, o):
        """register in the heap's object list"""
        n = len(s.list)
        s.list.append(o)
        s.e.store(s.st, addc(o, s.moff), s.m0, "i16")
        s.V.arrput(s.objs, I(n), o)
        s.e.store(s.st, addc(s.objs, s.v.DA["size"]), I(n + 1), "i64")
        return o

    def newobj(s, name, ty):
        o = s.add(s.V.obj(name, ty))
        st, e, v = s.st, s.e, s.v
        if ty == v.STRING:
            x = mk("strid", name, width=16)
            e.store(st, addc(o, v.sv["sid"]), x, "i16")
            s.sids[o] = x
        elif ty == v.TABLE:
            d = mk("tdict", name)
            st.facts[d] = (1, INF, frozenset())
            e.store(st, addc(o, v.vt), d, "ptr")
            st.ghost[("dconc", d)] = ()
            e.store(st, addc(d, v.DD["size"]), ZERO, "i32")
        elif ty == v.CLOSURE:
            a = mk("act", name)
            st.facts[a] = (1, INF, frozenset())
            e.store(st, addc(o, v.cl["actrec"]), a, "ptr")
            s.V.darray(a, ZERO, 8)
            if name != "x":
                e.store(st, addc(o, v.cl["isnative"]), I(len(s.list) % 2), "i8")
        return o

    def tput(s, t, k, x):
        d = s.st.simp(s.e.load(s.st, addc(t, s.v.vt), "ptr"))
        s.st.ghost[("dconc", d)] += ((k, "ptr", x, "ptr"),)

    def aput(s, c, x):
        a = s.st.simp(s.e.load(s.st, addc(c, s.v.cl["actrec"]), "ptr"))
        s.push(a, x)

    def push(s, a, x):
        n = s.V.asize(s.st, a).a[0]
        s.V.arrput(a, I(n), x)
        s.e.store(s.st, addc(a, s.v.DA["size"]), I(n + 1), "i64")

    def chain(s, name, how, ty):
        """object reached from a root, and everything it keeps alive"""
        v = s.v
        if how == "directly":
            o = s.newobj(name, ty)
            return o, [o]
        leaf = s.newobj(name + ".x", ty)
        if how == "as the value of a table":
            o, k = s.newobj(name, v.TABLE), s.newobj(name + ".k", v.STRING)
            s.tput(o, k, leaf)
            return o, [leaf, o, k]
        if how == "as the key of a table":
            o, x = s.newobj(name, v.TABLE), s.newobj(name + ".v", v.INT)
            y, z = s.newobj(name + ".k2", v.FLOAT), s.newobj(name + ".v2", v.NIL)
            s.tput(o, y, z)
            s.tput(o, leaf, x)
            return o, [leaf, o, x, y, z]
        if how == "in an activation record":
            o, x = s.newobj(name, v.CLOSURE), s.newobj(name + ".l0", v.TABLE)
            s.aput(o, x)
            s.aput(o, leaf)
            return o, [leaf, o, x]
        # table -> closure -> table -> (leaf, first table)
        o, k = s.newobj(name, v.TABLE), s.newobj(name + ".k", v.INT)
        c, t = s.newobj(name + ".c", v.CLOSURE), s.newobj(name + ".t", v.TABLE)
        s.tput(o, k, c)
        s.aput(c, o)
        s.aput(c, t)
        s.tput(t, k, o)
        s.tput(t, leaf, t)
        return o, [leaf, o, k, c, t]


def dictput(N, f, k, kty, x):
    d = mk("vmf", f)
    N.st.ghost[("dconc", d)] += ((k, kty, x, "ptr"),)


def populate(N, how, ty):
    """every kind of root refers to an object; returns ({root: [objects kept alive]}, sids of listeners)"""
    v, st, e = N.v, N.st, N.e
    keep, lsids = {}, []

    def garbage(i):
        g = N.newobj("garbage%d" % i, ty)
        if ty == v.TABLE:
            N.tput(g, N.newobj("garbage%d.k" % i, v.STRING), g)
        if ty == v.CLOSURE:
            N.aput(g, g)

    def mkroot(name):
        garbage(len(keep))
        o, all_ = N.chain(name, how, ty)
        keep[name] = all_
        return o

    # global symbols
    for i in range(2):
        dictput(N, "gsyms", mk("gsid", i, width=32), "i32", mkroot("a global variable (%d)" % i))
    # stacks: an outer one and the current one
    stacks = mk("vmf", "stacks")
    N.V.darray(stacks, ZERO, 8)
    outer = mk("outerstack")
    st.facts[outer] = (1, INF, frozenset())
    N.V.darray(outer, ZERO, 8)
    N.push(outer, mkroot("the bottom of an outer stack"))
    N.push(outer, mkroot("the top of an outer stack"))
    N.push(N.V.stack, mkroot("the bottom of the stack"))
    N.push(N.V.stack, mkroot("the top of the stack"))
    N.push(stacks, outer)
    N.push(stacks, N.V.stack)
    # local symbols: two frames
    lts = mk("vmf", "lsymts")
    N.V.darray(lts, ZERO, 8)
    for i, nm in enumerate(("lsyms_outer", "lsyms")):
        ls, da, n = N.V.frame(0, 0, nm)
        N.push(da, mkroot("self of frame %d" % i))
        N.push(da, mkroot("a local variable of frame %d" % i))
        N.push(lts, ls)
    N.V.set("lsyms", ls, "ptr")
    # stigmergies
    for i in range(2):
        vs, data = mk("vstig", i), mk("vsdata", i)
        for t in (vs, data):
            st.facts[t] = (1, INF, frozenset())
        e.store(st, addc(vs, N.VS["data"]), data, "ptr")
        for f in ("onconflict", "onconflictlost"):
            e.store(st, addc(vs, N.VS[f]), mkroot("%s of a stigmergy" % f) if i == 0 else ZERO, "ptr")
        ents = ()
        for j in range(2 - i):
            k, d = mkroot("key %d of stigmergy %d" % (j, i)), mkroot("value %d of stigmergy %d" % (j, i))
            el = mk("velem", i, j)
            st.facts[el] = (1, INF, frozenset())
            e.store(st, addc(el, N.VE["data"]), d, "ptr")
            ents += ((k, "ptr", el, "ptr"),)
        st.ghost[("dconc", data)] = ents
        dictput(N, "vstigs", mk("vsid", i, width=16), "i16", vs)
    # listeners
    for i in range(2):
        x = mk("lsid", i, width=16)
        lsids.append(x)
        dictput(N, "listeners", x, "i16", mkroot("listener %d" % i))
    # queued messages
    for i in range(2):
        m = N.bc(i)
        f = N.F["broadcast"]
        t = N.newobj("topic of broadcast %d" % i, v.STRING)
        keep["topic of broadcast %d" % i] = [t]
        e.store(st, addc(m, f["topic"]), t, "ptr")
        e.store(st, addc(m, f["value"]), mkroot("value of broadcast %d" % i), "ptr")
    for kind in ("VSTIG_PUT", "VSTIG_QUERY"):
        for i in range(2):
            m = N.vs(kind, i)
            f = N.F["vstig"]
            e.store(st, addc(m, f["key"]), mkroot("key of queued %s %d" % (kind, i)), "ptr")
            el = st.simp(e.load(st, addc(m, f["data"]), "ptr"))
            e.store(st, addc(el, N.VE["data"]), mkroot("value of queued %s %d" % (kind, i)), "ptr")
    garbage(len(keep))
    return keep, lsids


HOW = ("directly", "as the value of a table", "as the key of a table", "in an activation record", "through tables, closures and a cycle")


def collect(C):
    v = C.env
    for how in HOW:
        for ty in range(7):
            for mname, m0 in (("any marker", None), ("the last marker", I(65535))):
                if m0 is not None and ty != v.STRING:
                    continue
                if m0 is None:
                    m0 = mk("marker", width=16)
                N = H(C, m0)
                if m0.op != "i":
                    N.st.facts[m0] = (0, 65534, frozenset())
                keep, lsids = populate(N, how, ty)
                live = [o for l in keep.values() for o in l]
                mo = mk("maxobjs", width=32)
                N.st.facts[mo] = (0, 2 ** 32 - 1, frozenset())
                N.e.store(N.st, addc(N.heap, v.HP["max_objs"]), mo, "i32")
                ran = 0
                for o in N.run("buzzheap_gc"):
                    st = o.st
                    inst = "a %s referred to %s, %s" % (v.TN[ty], how, mname)
                    swept = [x[1] for x in N.evs(st, "swept")]
                    evs = N.evs(st, "gc_clear", "gc_mark", "gc_prune")
                    n = N.V.asize(st, N.objs)
                    after = [N.V.aget(st, N.objs, I(i)) for i in range(n.a[0])] if n.op == "i" else None
                    C.ob("safe", inst)
                    p = N.problems(st)
                    if p:
                        C.fail("safe", inst, N.where, p, st.trail)
                        continue
                    nowm = fold(st, N.e.load(st, addc(N.heap, v.HP["marker"]), "i16"))
                    if not swept and not evs:
                        # not due yet: nothing may have changed
                        C.ob("not due", inst)
                        if after != N.list or nowm is not fold(N.pre, m0):
                            C.fail("not due", inst, N.where, "changes the heap without collecting", st.trail)
                        continue
                    ran += 1
                    C.ob("kept", inst, n=len(live))
                    for r, l in keep.items():
                        lost = [x for x in l if x in swept or after is None or x not in after]
                        if lost:
                            C.fail("kept", r + ", " + inst, N.where, "%s is released although %s refers to it" % (show(lost[0]), r), st.trail)
                    dead = [x for x in N.list if x not in live]
                    C.ob("released", inst, n=len(dead))
                    for x in dead:
                        if x not in swept or (after is not None and x in after):
                            C.fail("released", inst, N.where, "%s is unreachable but not released" % show(x), st.trail)
                    if after is not None and sorted(map(str, after)) != sorted(map(str, live)):
                        C.fail("released", inst, N.where, "the heap's list holds %d objects, %d are live" % (len(after), len(live)), st.trail)
                    # survivors carry the heap's marker
                    for x in live:
                        mk_ = fold(st, N.e.load(st, addc(x, N.moff), "i16"))
                        if mk_ is not nowm:
                            C.fail("kept", "marker, " + inst, N.where, "%s survives with marker %s, the heap's is %s" % (show(x), show(mk_), show(nowm)), st.trail)
                            break
                    # strings
                    C.ob("strings", inst)
                    kinds = [x[0] for x in evs]
                    if kinds.count("gc_clear") != 1 or kinds.count("gc_prune") != 1 or kinds[0] != "gc_clear" or kinds[-1] != "gc_prune":
                        C.fail("strings", inst, N.where, "string marks are not all between one clear and one prune", st.trail)
                    marked = {fold(st, x[2]) for x in evs if x[0] == "gc_mark"}
                    need = {fold(st, N.sids[x]) for x in live if x in N.sids} | {fold(st, x) for x in lsids}
                    may = {mk("gsid", i, width=32) for i in range(2)}
                    if need - marked:
                        C.fail("strings", inst, N.where, "string %s is in use but not marked" % show(sorted(need - marked, key=str)[0]), st.trail)
                    extra = [x for x in marked - need if not any(g in may for g in [x] + list(atoms(x)))]
                    if extra:
                        C.fail("strings", inst, N.where, "string %s is marked although nothing uses it" % show(extra[0]), st.trail)
                    # the next collection takes place in time
                    C.ob("threshold", inst)
                    t = fold(st, N.e.load(st, addc(N.heap, v.HP["max_objs"]), "i32"))
                    if t.op != "i" or t.a[0] > 4 * max(len(live), 16):
                        C.fail("threshold", inst, N.where, "with %d objects left the next collection is at %s" % (len(live), show(t)), st.trail)
                if not ran:
                    C.fail("released", "a collection", N.where, "no path collects anything")


def empty(C):
    """nothing lives: the threshold must stay positive and finite"""
    v = C.env
    N = H(C, I(0))
    for f in ("stacks", "lsymts"):
        N.V.darray(mk("vmf", f), ZERO, 8)
    N.newobj("g", v.INT)
    N.e.store(N.st, addc(N.heap, v.HP["max_objs"]), ONE, "i32")
    for o in N.run("buzzheap_gc"):
        C.ob("threshold", "empty heap")
        t = fold(o.st, N.e.load(o.st, addc(N.heap, v.HP["max_objs"]), "i32"))
        if t.op != "i" or t.a[0] > 64:
            C.fail("threshold", "empty heap", N.where, "the next collection is at %s objects" % show(t), o.st.trail)


class R(Safe):
    """registration of new objects: real buzzheap_newobj / buzzheap_clone"""

    def __init__(s, C):
        Safe.__init__(s, C, keep=("buzzheap_clone",))
        e, st, v = s.e, s.st, s.v
        e.models.pop("buzzheap_newobj", None)
        e.recursion = 4
        e.inline_depth = 60
        s.heap = mk("vmf", "heap")
        s.m = mk("marker", width=16)
        e.store(st, addc(s.heap, v.HP["marker"]), s.m, "i16")
        s.objs = mk("heapobjs")
        st.facts[s.objs] = (1, INF, frozenset())
        e.store(st, addc(s.heap, v.HP["objs"]), s.objs, "ptr")
        s.V.darray(s.objs, ZERO, 8)
        s.moff = fields(C, "buzzint_t")["marker"]

    def listed(s, st):
        n = s.V.asize(st, s.objs)
        return [s.V.aget(st, s.objs, I(i)) for i in range(n.a[0])] if n.op == "i" else None


def birth(C):
    v = C.env
    for ty in range(7):
        N = R(C)
        for o in N.run("buzzheap_newobj", [N.vm, I(ty)]):
            st, inst = o.st, "a new %s" % v.TN[ty]
            C.ob("registered", inst)
            x = st.simp(o.ret)
            if N.listed(st) != [x]:
                C.fail("registered", inst, N.where, "the heap's list gains %s" % [show(y) for y in N.listed(st) or []], st.trail)
                continue
            if N.V.type_of(st, x) is not I(ty):
                C.fail("registered", inst, N.where, "has type %s" % show(N.V.type_of(st, x)), st.trail)
            mm = fold(st, N.e.load(st, addc(x, N.moff), "i16"))
            if mm is not fold(st, N.m):
                C.fail("registered", inst, N.where, "carries marker %s instead of the heap's" % show(mm), st.trail)
            if ty in (v.TABLE, v.CLOSURE):
                p = st.simp(N.e.load(st, addc(x, v.vt if ty == v.TABLE else v.cl["actrec"]), "ptr"))
                mine = [y for y in N.evs(st, "dict_new" if ty == v.TABLE else "da_new") if y[1] is p]
                if not mine:
                    C.fail("registered", inst, N.where, "has no container of its own", st.trail)
                elif ty == v.TABLE:
                    a = mine[0][2]
                    if a[1] is not I(8) or a[2] is not I(8):
                        C.fail("registered", inst, N.where, "its keys and values are not object references", st.trail)
                elif mine[0][2] is not I(8):
                    C.fail("registered", inst, N.where, "its activation record does not hold object references", st.trail)
    # clones: every object made is registered once
    for ty in range(7):
        N = R(C)
        src = N.V.obj("src", ty)
        N.e.store(N.st, addc(src, N.moff), N.m, "i16")
        n = 1
        if ty == v.TABLE:
            d = mk("tdict", "src")
            N.st.facts[d] = (1, INF, frozenset())
            N.e.store(N.st, addc(src, v.vt), d, "ptr")
            kx = []
            for i in range(2):
                for w in "kd":
                    y = N.V.obj("%s%d" % (w, i), v.INT)
                    N.e.store(N.st, addc(y, N.moff), N.m, "i16")
                    N.e.store(N.st, addc(y, v.vi), mk("val", w, i, width=32), "i32")
                    kx.append(y)
            N.st.ghost[("dconc", d)] = ((kx[0], "ptr", kx[1], "ptr"), (kx[2], "ptr", kx[3], "ptr"))
            n = 5
        for o in N.run("buzzheap_clone", [N.vm, src]):
            st, inst = o.st, "a clone of a %s" % v.TN[ty]
            C.ob("registered", inst)
            l = N.listed(st)
            if l is None or len(l) != n or len(set(l)) != n or st.simp(o.ret) not in l or src in l:
                C.fail("registered", inst, N.where, "%d new objects are listed instead of %d" % (len(l or []), n), st.trail)
                continue
            for x in l:
                mm = fold(st, N.e.load(st, addc(x, N.moff), "i16"))
                if mm is not fold(st, N.m):
                    C.fail("registered", inst, N.where, "%s carries marker %s instead of the heap's" % (show(x), show(mm)), st.trail)
                    break


def death(C):
    """what is released together with an object"""
    v = C.env
    N = R(C)
    outs = N.run("buzzheap_new", [])
    dest = None
    for o in outs:
        h = st_objs = o.st.simp(N.e.load(o.st, addc(o.st.simp(o.ret), v.HP["objs"]), "ptr"))
        dest = o.st.simp(N.e.load(o.st, addc(h, v.DA["elem_destroy"]), "ptr"))
        C.ob("destroyed", "a new heap")
        if dest.op != "fn":
            C.fail("destroyed", "a new heap", N.where, "objects removed from the heap's list are not destroyed", o.st.trail)
            return
    for ty in range(7):
        N = R(C)
        x = N.V.obj("x", ty)
        own = mk("own")
        N.st.facts[own] = (1, INF, frozenset())
        if ty == v.TABLE:
            N.e.store(N.st, addc(x, v.vt), own, "ptr")
        elif ty == v.CLOSURE:
            N.e.store(N.st, addc(x, v.cl["actrec"]), own, "ptr")
        cell = mk("slot")
        N.st.facts[cell] = (1, INF, frozenset())
        N.e.store(N.st, cell, x, "ptr")
        for o in N.run(dest.a[0], [ZERO, cell, ZERO]):
            st, inst = o.st, "a %s" % v.TN[ty]
            C.ob("destroyed", inst)
            fr = [y[1] for y in N.evs(st, "free") if y[1] is not ZERO]
            co = [y[:2] for y in N.evs(st, "dict_destroy", "da_destroy")]
            want = [("dict_destroy", own)] if ty == v.TABLE else [("da_destroy", own)] if ty == v.CLOSURE else []
            u = N.uaf(st)
            if fr != [x] or co != want or u:
                C.fail("destroyed", inst, N.where, "destroying it releases %s and %s instead of the object%s" % (
                    ", ".join(map(show, fr)) or "nothing", ", ".join("%s of %s" % (a, show(b)) for a, b in co) or "no container",
                    " and its container" if want else ""), st.trail)
    # containers of objects release their own cells only
    for cname, fn, args in (("a table", "buzzobj_new", [I(v.TABLE)]), ("a closure's activation record", "buzzobj_new", [I(v.CLOSURE)]),
                            ("a stigmergy", "buzzvstig_new", []), ("a frame", "buzzvm_lsyms_new", None), ("the machine", "buzzvm_new", [mk("rid", width=16)])):
        N = R(C)
        if args is None:
            da = mk("symsda", "x")
            N.st.facts[da] = (1, INF, frozenset())
            args = [mk("isswarm", width=8), da]
        for m in ("buzzstrman_new", "buzzheap_new", "buzzinmsg_queue_new", "buzzoutmsg_queue_new", "buzzswarm_members_new"):
            N.e.models[m] = N.rec("other")
        if C.prog.func(fn) is None:
            continue
        for o in N.run(fn, args):
            for ev in N.evs(o.st, "dict_new", "da_new"):
                if ev[0] == "dict_new":
                    f = ev[2][5]
                else:
                    f = o.st.simp(N.e.load(o.st, addc(ev[1], v.DA["elem_destroy"]), "ptr"))
                inst = "a container of %s" % cname
                C.ob("borrowed", inst)
                if f is ZERO:
                    continue
                M = R(C)
                k, d, x = mk("cellk"), mk("celld"), M.V.obj("element")
                for t in (k, d):
                    M.st.facts[t] = (1, INF, frozenset())
                M.e.store(M.st, d, x, "ptr")
                M.e.store(M.st, k, M.V.obj("keyobject"), "ptr")
                a = [k, d, mk("dictp")] if ev[0] == "dict_new" else [mk("pos", width=32), d, ZERO]
                for o2 in M.run(f.a[0], a):
                    for y in M.evs(o2.st, "free"):
                        if y[1] is M.V.obj("keyobject") or (y[1] is x and cname in ("a table", "a closure's activation record")):
                            C.fail("borrowed", inst, M.where, "releases an object it refers to", o2.st.trail)


def marking(C):
    """one object of arbitrary contents: its marker is set and everything it refers to is marked in turn"""
    v = C.env
    for ty in range(7):
        for old in (False, True):
            m0 = mk("marker", width=16)
            N = H(C, m0)
            x = N.newobj("x", ty)
            if not old:
                mm = mk("oldmarker", width=16)
                N.st.facts[mm] = (0, 65535, frozenset())
                N.e.store(N.st, addc(x, N.moff), mm, "i16")
                N.st.assume(icmp("ne", mm, m0), True)
            sub_ = []
            if ty == v.TABLE:
                sub_ = [N.V.obj("c%d" % i) for i in range(4)]
                N.tput(x, sub_[0], sub_[1])
                N.tput(x, sub_[2], sub_[3])
            elif ty == v.CLOSURE:
                sub_ = [N.V.obj("c%d" % i) for i in range(3)]
                for y in sub_:
                    N.aput(x, y)
            for y in sub_:
                N.st.facts[N.e.load(N.st, y, "i16")] = (0, 6, frozenset())
            N.e.models["buzzheap_obj_mark"] = N.rec("mark")
            for o in N.run("buzzheap_obj_mark", [x, N.vm]):
                st, inst = o.st, "a %s%s" % (v.TN[ty], " already marked" if old else "")
                C.ob("marking", inst)
                got = [st.simp(y[1]) for y in N.evs(st, "mark")]
                ss = [fold(st, y[2]) for y in N.evs(st, "gc_mark")]
                now = fold(st, N.e.load(st, addc(x, N.moff), "i16"))
                if now is not fold(st, m0):
                    C.fail("marking", inst, N.where, "its marker becomes %s" % show(now), st.trail)
                if old:
                    continue
                if set(got) != set(sub_):
                    C.fail("marking", inst, N.where, "marks %s instead of %s" % (", ".join(map(show, got)) or "nothing", ", ".join(map(show, sub_)) or "nothing"), st.trail)
                want = [fold(st, N.sids[x])] if ty == v.STRING else []
                if set(ss) != set(want):
                    C.fail("marking", inst, N.where, "marks %d strings instead of %d" % (len(ss), len(want)), st.trail)


def run(C):
    marking(C)
    collect(C)
    empty(C)
    birth(C)
    death(C)


MINIMA = {"marking": 14, "kept": 500, "released": 500, "strings": 35, "registered": 14, "destroyed": 8}
