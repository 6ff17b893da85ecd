"""Neighbor queries and communication. Every function of the neighbors table is interpreted abstractly from symbolic machine states: 0 to 2 neighbors
with symbolic ids and data, missing or invalid neighbor data, any swarm stack, any membership answers, all argument counts and types,
called functions that return anything or fail. Per path: calls made, structures built, listeners and queued messages, result and error must be
those of the function's definition."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bzsa.terms import *
from bzsa.absint import INF
from bzsa.natenv import arity, expect_error, nottype
from bzsa.collenv import Cb
from bzsa.vmspec import fold
import C09

B = "buzzneighbors_"
METHODS = ("get", "filter", "kin", "nonkin", "foreach", "map", "reduce", "count")
EXTRA = ("broadcast", "listen", "ignore")


def methods(N, st, o, names):
    """message when o is not a table holding these methods"""
    v, e = N.v, N.e
    if o is None or N.V.type_of(st, o) is not I(v.TABLE):
        return "is not a table"
    got = N.contents(st, o)
    for m in names:
        x = got.get(N.skey(m))
        if x is None or N.V.type_of(st, x) is not I(v.CLOSURE):
            return "has no method '%s'" % m
        ref = st.simp(e.load(st, addc(x, v.cl["ref"]), "i32"))
        if ref is not mk("fid", mk("fn", B + m), width="u") or fold(st, e.load(st, addc(x, v.cl["isnative"]), "i8")) is not ZERO:
            return "has method '%s' bound to %s" % (m, show(ref))
    return None


def mkself(C, nargs, n, **k):
    """n neighbors; n = None: no neighbor data, n = "bad": neighbor data that is not a table"""
    N = Cb(C, nargs, False, **k)
    N.settype(N.self, N.v.TABLE)
    N.e.store(N.st, addc(N.self, N.v.vt), N.d0, "ptr")
    N.ents = []
    if n is None:
        N.field(N.d0, "poses", None)
    elif n == "bad":
        o = N.V.obj("badposes")
        N.st.facts[N.e.load(N.st, o, "i16")] = (1, 6, frozenset([N.v.TABLE]))
        N.field(N.d0, "poses", o)
    else:
        N.ents = N.entries("n", n)
        N.poses, N.pd = N.tabobj("poses", N.ents)
        N.field(N.d0, "poses", N.poses)
        N.volatile.add(N.poses)
    return N


def structure(C, rule):
    """contents of the neighbor data in a structure made by map, filter, kin, nonkin; {} without data"""
    def f(N, st, x, inst):
        m = methods(N, st, x, METHODS)
        if m or x is N.self:
            C.fail(rule, inst, N.where, "the result %s" % (m or "is not new"), st.trail)
            return None
        c = N.contents(st, x)
        p = c.get(N.skey("poses"))
        if p is None:
            return {}
        if N.V.type_of(st, p) is not I(N.v.TABLE) or p is getattr(N, "poses", None):
            C.fail(rule, inst, N.where, "the result's neighbor data is %s" % show(p), st.trail)
            return None
        return N.contents(st, p)
    return f


def run(C):
    v = C.env
    nargs = {"get": 1, "filter": 1, "kin": 0, "nonkin": 0, "foreach": 1, "map": 1, "reduce": 2, "count": 0, "broadcast": 2, "listen": 2, "ignore": 1}
    for f, n in sorted(nargs.items()):
        arity(C, "arguments", B + f, (n,) if f not in ("kin", "nonkin") else (0,), 4)
    ok = C09.ok
    # collections
    for f in ("foreach", "map", "filter", "reduce"):
        for n in range(0, 3):
            inst = "%s(), %d neighbors" % (f, n)

            def args(n, f=f):
                N = mkself(C, nargs[f], n)
                cl = N.arg(1, N.V.obj("cl", v.CLOSURE))
                acc = N.arg(2, N.V.obj("acc")) if f == "reduce" else None
                return N, cl, N.ents, acc

            def chk(N, st, x, ents, r, inst, f=f):
                C09.unchanged(C, f, inst, N, st, N.pd)
                t = structure(C, f)
                {"foreach": C09.chk_foreach(C, f), "map": C09.chk_map(C, f, t, True), "filter": C09.chk_filter(C, f, t),
                 "reduce": C09.chk_reduce(C, f, lambda N: N.args[2])}[f](N, st, x, ents, r, inst)
            C09.collection(C, f, B + f, args, chk, n, inst)
        # the function must be a function
        N = mkself(C, nargs[f], 1)
        nottype(N, 1, [v.CLOSURE])
        for o in N.run(B + f):
            expect_error(C, "arguments", "%s() of something that is not a function" % f, N, o, ("TYPE",))
        # no data
        N = mkself(C, nargs[f], None)
        N.arg(1, N.V.obj("cl", v.CLOSURE))
        inst = "%s(), no neighbor data" % f
        for o in N.run(B + f):
            x, good = ok(C, f, inst, N, o)
            if not good:
                continue
            if N.evs(o.st, "ccall"):
                C.fail(f, inst, N.where, "calls the function", o.st.trail)
            if f in ("map", "filter"):
                if structure(C, f)(N, o.st, x, inst) not in ({}, None):
                    C.fail(f, inst, N.where, "the result is not empty", o.st.trail)
            elif f == "reduce" and x is not N.args[2]:
                C.fail(f, inst, N.where, "returns %s instead of the accumulator" % (show(x) if x is not None else "nil"), o.st.trail)
    # self that is not a table
    for f in ("get", "filter", "kin", "foreach", "map", "reduce", "count"):
        N = mkself(C, nargs[f], None)
        N.st.mem.pop(N.self, None)
        N.st.facts[N.e.load(N.st, N.self, "i16")] = (0, 6, frozenset([v.TABLE]))
        if nargs[f]:
            N.arg(1, N.V.obj("cl", v.CLOSURE))
        for o in N.run(B + f):
            expect_error(C, "arguments", "%s() on something that is not a table" % f, N, o, ("TYPE",))
    # count
    for n in (None, "bad", "any"):
        N = mkself(C, 0, n if n != "any" else 0)
        z = mk("ncount", width="u")
        if n == "any":
            N.st.facts[z] = (0, 2 ** 31 - 1, frozenset())
            N.e.store(N.st, addc(N.pd, v.DD["size"]), z, "i32")
        inst = "count(), %s" % {None: "no neighbor data", "bad": "invalid neighbor data", "any": "any number of neighbors"}[n]
        for o in N.run(B + "count"):
            if n == "bad" and N.result(o)[0] == "error":
                continue
            x, good = ok(C, "count", inst, N, o)
            if good and (x is None or N.V.type_of(o.st, x) is not I(v.INT) or fold(o.st, N.V.ival(o.st, x)) is not (z if n == "any" else ZERO)):
                C.fail("count", inst, N.where, "returns %s" % (show(fold(o.st, N.V.ival(o.st, x))) if x is not None else "nothing"), o.st.trail)
    # get
    for n in (None, "there", "missing"):
        N = mkself(C, 1, None if n is None else 0)
        x, ido = N.intobj("rid")
        N.arg(1, ido)
        d = N.V.obj("rdata")
        if n is not None:
            k = mk("ikey", x)
            N.st.ghost[("d", N.pd, k)] = "yes" if n == "there" else "no"
            if n == "there":
                c = N.dd.cell(N.pd, k)
                N.st.facts[c] = (1, INF, frozenset())
                N.e.store(N.st, c, d, "ptr")
        inst = "get(), %s" % {None: "no neighbor data", "there": "a neighbor", "missing": "an unknown robot"}[n]
        for o in N.run(B + "get"):
            r, good = ok(C, "get", inst, N, o)
            if good and (r is not d if n == "there" else r is not None and N.isnil(o.st, r) is not True):
                C.fail("get", inst, N.where, "returns %s" % (show(r) if r is not None else "nothing"), o.st.trail)
    # kin, nonkin
    for f in ("kin", "nonkin"):
        for depth in (0, 1, 2):
            for n in (None, 0, 1, 2):
                N = mkself(C, 0, n)
                ss = mk("vmf", "swarmstack")
                N.V.darray(ss, I(depth), 2)
                sw = [mk("sw", i, width=16) for i in range(depth)]
                for i, s0 in enumerate(sw):
                    N.V.arrput(ss, I(i), s0, "i16")

                def isin(e, st, args, fn, ins, N=N):
                    if st.simp(args[0]) is not mk("vmf", "swarmmembers"):
                        st.ev_add("wrongmembers")
                    r, s1 = fold(st, st.simp(args[1])), fold(st, st.simp(args[2]))
                    st.ev_add("isin", r, s1)
                    g = st.ghost.get(("isin", r, s1))
                    if g is not None:
                        return [(st, I(g))]
                    s2 = st.copy()
                    st.ghost[("isin", r, s1)], s2.ghost[("isin", r, s1)] = 1, 0
                    return [(st, ONE), (s2, ZERO)]
                N.e.models["buzzswarm_members_isrobotin"] = isin
                for i in range(n or 0):
                    N.st.facts[mk("kv", "n", i, width=32)] = (0, 65535, frozenset())
                inst = "%s(), %s swarms on the swarm stack, %s neighbors" % (f, depth, "unknown" if n is None else n)
                outs = N.run(B + f)
                if not outs:
                    C.fail(f, inst, N.where, "no path", ())
                for o in outs:
                    st = o.st
                    x, good = ok(C, f, inst, N, o)
                    if not good:
                        continue
                    got = structure(C, f)(N, st, x, inst)
                    if got is None:
                        continue
                    if N.evs(st, "wrongmembers"):
                        C.fail(f, inst, N.where, "asks something else than the known membership", st.trail)
                    want = {}
                    for i, (k, kt, d) in enumerate(N.ents):
                        if depth == 0:
                            if f == "kin":
                                want[kt] = d
                            continue
                        g = st.ghost.get(("isin", mk("kv", "n", i, width=32), sw[-1]))
                        if g is None:
                            C.fail(f, inst, N.where, "never asks whether neighbor %d is in the current swarm" % i, st.trail)
                        elif bool(g) == (f == "kin"):
                            want[kt] = d
                    C09.same(C, f, inst, N, st, got, want)
                    if n is not None:
                        C09.unchanged(C, f, inst, N, st, N.pd)
    # broadcast, listen, ignore
    N = Cb(C, 2)
    t, x = N.arg(1, N.V.obj("topic", v.STRING)), N.arg(2, N.V.obj("value"))
    N.anytype(x)
    for o in N.run(B + "broadcast"):
        C.ob("broadcast", "broadcast()")
        k, r = N.result(o)
        ev = N.effects(o.st)
        if k != "ok" or len(ev) != 1 or ev[0][0] != "out_bc" or N.src(o.st, ev[0][2]) is not t or N.src(o.st, ev[0][3]) is not x:
            C.fail("broadcast", "broadcast()", N.where, "%s, %s" % (k, [(e[0], [show(y) for y in e[1:]]) for e in ev]), o.st.trail)
    L = mk("vmf", "listeners")
    sid = mk("topicsid", width=16)
    for f in ("listen", "ignore"):
        N = Cb(C, nargs[f])
        t = N.arg(1, N.V.obj("topic", v.STRING))
        N.e.store(N.st, addc(t, v.sv["sid"]), sid, "i16")
        if f == "listen":
            cl = N.arg(2, N.V.obj("cl", v.CLOSURE))
        inst = f + "()"
        for o in N.run(B + f):
            C.ob("listeners", inst)
            k, r = N.result(o)
            ev = N.effects(o.st)
            good = k == "ok" and len(ev) == 1 and ev[0][1] is L and fold(o.st, ev[0][2]) is sid
            if good and f == "listen":
                good = ev[0][0] == "dset" and N.src(o.st, ev[0][3]) is cl
            elif good:
                good = ev[0][0] == "dremove"
            if not good:
                C.fail("listeners", inst, N.where, "%s, %s" % (k, [(e[0], [show(y) if isinstance(y, T) else y for y in e[1:]]) for e in ev]), o.st.trail)
    for f, i, ty in (("broadcast", 1, v.STRING), ("listen", 1, v.STRING), ("ignore", 1, v.STRING), ("listen", 2, v.CLOSURE)):
        N = Cb(C, nargs[f])
        if i == 2:
            N.arg(1, N.V.obj("topic", v.STRING))
        elif f == "listen":
            N.arg(2, N.V.obj("cl", v.CLOSURE))
        nottype(N, i, [ty])
        for o in N.run(B + f):
            expect_error(C, "arguments", "%s(): argument %d of another type" % (f, i), N, o, ("TYPE",))
    hostside(C)


def hostside(C):
    """functions the host program calls: new, reset, add"""
    v = C.env
    G = mk("vmf", "gsyms")
    gk = mk("sid", mk("str", b"neighbors"), width=16)
    N = Cb(C, 0)
    for o in N.run(B + "new"):
        C.ob("structure", "new")
        st = o.st
        ev = [x for x in N.evs(st, "dset") if x[1] is G]
        if N.state(st) is not I(v.READY) or len(ev) != 1 or ev[0][2] is not gk:
            C.fail("structure", "new", N.where, "the global variables set are %s" % [show(x[2]) for x in ev], st.trail)
            continue
        m = methods(N, st, ev[0][3], METHODS + EXTRA)
        if m:
            C.fail("structure", "new", N.where, "the neighbors table %s" % m, st.trail)
        if N.depth(st) is not ZERO:
            C.fail("structure", "new", N.where, "leaves %s values on the stack" % show(N.depth(st)), st.trail)
    for f in ("reset", "add"):
        for have in ("table", "empty", "bad"):
            N = Cb(C, 0)
            nb = N.V.obj("nbrs")
            N.st.ghost[("d", G, gk)] = "yes"
            c = N.dd.cell(G, gk)
            N.st.facts[c] = (1, INF, frozenset())
            N.e.store(N.st, c, nb, "ptr")
            if have == "bad":
                N.st.facts[N.e.load(N.st, nb, "i16")] = (0, 6, frozenset([v.TABLE]))
            else:
                N.settype(nb, v.TABLE)
                N.e.store(N.st, addc(nb, v.vt), N.d0, "ptr")
                if have == "table":
                    po, pd = N.tabobj("poses", [])
                    N.field(N.d0, "poses", po)
                else:
                    N.field(N.d0, "poses", None)
            rid = mk("addrid", width=16)
            fl = [mk("addf", i) for i in range(3)]
            inst = "%s, %s" % (f, {"table": "data from before", "empty": "no data yet", "bad": "neighbors is not a table"}[have])
            outs = N.run(B + f, [N.vm] + ([rid] + fl if f == "add" else []))
            if not outs:
                C.fail("structure", inst, N.where, "no path", ())
            for o in outs:
                st = o.st
                C.ob("structure", inst)

                def bad(m):
                    C.fail("structure", inst, N.where, m, st.trail)
                ev = [x for x in N.evs(st, "dset", "dremove") if x[1] in (G, N.d0, mk("tdict", "poses"))]
                if have == "bad":
                    if N.state(st) is not I(v.ERROR) or ev:
                        bad("expected an error without effects")
                    continue
                if N.state(st) is not I(v.READY) or N.depth(st) is not ZERO:
                    bad("ends in state %s with %s values on the stack" % (show(N.state(st)), show(N.depth(st))))
                    continue
                p = N.dictval(st, N.d0, N.skey("poses"), "ptr")
                if isinstance(p, str) or N.V.type_of(st, p) is not I(v.TABLE):
                    bad("there is no neighbor data afterwards")
                    continue
                d = st.simp(N.e.load(st, addc(p, v.vt), "ptr"))
                if f == "reset":
                    if p is mk("obj", "poses") and not N.evs(st, "dict_clear") or [x for x in N.evs(st, "dset") if x[1] is d] or [x for x in ev if x[1] is not N.d0]:
                        bad("the neighbor data is not empty and new afterwards")
                    continue
                if have == "table" and p is not mk("obj", "poses"):
                    bad("earlier neighbors are lost")
                got = {x[2]: x[3] for x in N.evs(st, "dset") if x[1] is d}
                w = [k for k in got if k.op == "ikey" and fold(st, k.a[0]) is rid]
                if len(got) != 1 or not w or N.evs(st, "dremove") or [x for x in ev if x[1] is G]:
                    bad("the entries set are %s" % [show(k) for k in got])
                    continue
                en = got[w[0]]
                if N.V.type_of(st, en) is not I(v.TABLE) or en.op != "new":
                    bad("the entry is %s" % show(en))
                    continue
                c = N.contents(st, en)
                for nm, x in zip(("distance", "azimuth", "elevation"), fl):
                    y = c.get(N.skey(nm))
                    if y is None or N.V.type_of(st, y) is not I(v.FLOAT) or st.simp(N.V.fval(st, y)) is not x:
                        bad("the %s of the neighbor is %s" % (nm, show(st.simp(N.V.fval(st, y))) if y is not None else "missing"))


MINIMA = {"arguments": 40, "foreach": 6, "map": 6, "filter": 6, "reduce": 6, "count": 3, "get": 3, "kin": 12, "nonkin": 12, "broadcast": 1,
          "listeners": 2, "structure": 7}
