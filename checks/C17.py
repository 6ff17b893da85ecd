"""Virtual stigmergy operations. create/put/get/size/foreach/onconflict/onconflictlost are interpreted abstractly from symbolic machine states
(any id, key type, value type, known or unknown stigmergy and entry). Per path, the final entry (data, timestamp, robot), the messages queued,
the returned value and the error must be the ones of the operation's definition; other entries are untouched, refused operations have no
effect, and no entry is used after it was released."""
from bzsa.terms import *
from bzsa.absint import INF
from bzsa.natenv import Fun, arity, badself, nottype, expect_error
from bzsa.vmspec import fold, feasible

VS = mk("vmf", "vstigs")
METHODS = ("foreach", "size", "put", "get", "onconflict", "onconflictlost")


def entry(N, st, data, key):
    g = st.ghost.get(("d", data, key))
    if g != "yes":
        return g
    el = st.simp(N.e.load(st, N.dd.cell(data, key, st), "ptr"))
    d, t, r = N.elem(st, el)
    return (N.src(st, d), t, r)


def prep(C, nargs, have, key="int"):
    N = Fun(C, nargs)
    st, v = N.st, N.v
    if nargs >= 1:
        N.k = N.arg(1, N.V.obj("key"))
        if key == "int":
            N.settype(N.k, v.INT)
            N.e.store(st, addc(N.k, v.vi), mk("keyval", width=32), "i32")
            N.key = mk("ikey", mk("keyval", width=32))
        elif key == "string":
            N.settype(N.k, v.STRING)
            N.e.store(st, addc(N.k, v.sv["sid"]), mk("keysid", width=16), "i16")
            N.key = mk("skey", mk("keysid", width=16))
        else:
            N.settype(N.k, v.FLOAT)
            N.key = N.k
    else:
        N.key = mk("ikey", mk("keyval", width=32))
    N.data = mk("vsdata", 0)
    N.vs = mk("vstig", 0)
    if have == "no stigmergy":
        st.ghost[("d", VS, N.id)] = "no"
    else:
        N.vstig(N.id)
        for f in ("onconflict", "onconflictlost"):
            N.e.store(st, addc(N.vs, N.VS[f]), mk("old", f), "ptr")
        if have == "entry":
            N.velem(N.data, N.key)
            N.anytype(mk("obj", "data_l"))
        else:
            st.ghost[("d", N.data, N.key)] = "no"
    return N


def others(C, rule, inst, N, st):
    for x in N.effects(st):
        if x[0] == "out_vs" or x[0] in ("vset", "vremove") and x[1] is N.data and x[2] is N.key or x[0] in ("dset", "dremove") and x[1] is N.data:
            continue
        C.fail(rule, inst, N.where, "has another effect: %s" % x[0], st.trail)


def msgs(C, rule, inst, N, st, want):
    got = []
    for x in N.evs(st, "out_vs"):
        got.append((x[1].a[0] if x[1].op == "i" else None, x[2], N.dd.canonkey(N.e, st, x[3]), x[4], x[5], x[6]))
    w = [(N.MT[t], fold(st, N.id), N.key) + tuple(fold(st, y) if i else y for i, y in enumerate(el)) for t, el in want]
    if got != w:
        C.fail(rule, inst, N.where, "queues %s instead of %s" % ([tuple(show(y) if isinstance(y, T) else y for y in m) for m in got],
                                                                 [tuple(show(y) if isinstance(y, T) else y for y in m) for m in w]), st.trail)


def final(C, rule, inst, N, st, want):
    got = entry(N, st, N.data, N.key)
    if want is None:
        if got not in ("no", None):
            C.fail(rule, inst, N.where, "the entry is present afterwards", st.trail)
        return
    w = (want[0],) + tuple(fold(st, x) for x in want[1:])
    if got is None or got == "no" or got != w:
        C.fail(rule, inst, N.where, "the entry is %s afterwards instead of %s" % (got if isinstance(got, str) else [show(x) for x in got or ()], [show(x) for x in w]), st.trail)


def ok(C, rule, inst, N, o):
    C.ob(rule, inst)
    k, x = N.result(o)
    if k != "ok":
        C.fail(rule, inst, N.where, "expected success, found %s %s" % (k, x if isinstance(x, str) else show(x)), o.st.trail)
        return None, False
    return x, True


def some(C, rule, inst, N, outs):
    if not outs:
        C.fail(rule, inst, N.where, "no path handles this case", ())
    return outs


def run(C):
    v = C.env
    for fn, na in (("create", 1), ("put", 2), ("get", 1), ("size", 0), ("foreach", 1), ("onconflict", 1), ("onconflictlost", 1)):
        arity(C, "arity", "buzzvstig_" + fn, (na,), selfid=fn != "create")
        if fn != "create":
            def pre(N, na=na):
                if na:
                    N.intarg(1, "x")
                if na > 1:
                    N.intarg(2, "y")
            badself(C, "types", "buzzvstig_" + fn, na, pre)
    # put
    fn = "buzzvstig_put"
    tl, rl = mk("ts", "l", width=16), mk("rob", "l", width=16)
    for key in ("int", "string", "float"):
        for have in ("no stigmergy", "no entry", "entry"):
            N = prep(C, 2, have, key)
            val = N.arg(2, N.V.obj("val"))
            ty = N.anytype(val)
            # timestamps do not wrap
            N.st.facts[tl] = (0, 65534, frozenset())
            seen = set()
            for o in N.run(fn):
                base = o.st
                for nil in (True, False):
                    s2 = feasible(base, [(icmp("eq", ty, I(v.NIL)), nil)])
                    if s2 is None:
                        continue
                    seen.add(nil)
                    o.st = s2
                    inst = "put of %s, %s key, %s" % ("nil" if nil else "a value", key, have)
                    r, good = ok(C, "put", inst, N, o)
                    if not good:
                        continue
                    others(C, "put", inst, N, s2)
                    me = N.V.robot
                    if have == "no stigmergy" or have == "no entry" and nil:
                        msgs(C, "put", inst, N, s2, [])
                        if have != "no stigmergy":
                            final(C, "put", inst, N, s2, None)
                    elif have == "no entry":
                        el = (val, ONE, me)
                        msgs(C, "put", inst, N, s2, [("VSTIG_PUT", el)])
                        final(C, "put", inst, N, s2, el)
                    else:
                        el = (val, addc(tl, 1), me)
                        msgs(C, "put", inst, N, s2, [("VSTIG_PUT", el)])
                        final(C, "put", inst, N, s2, None if nil else el)
            if seen != {True, False}:
                C.fail("put", "%s, %s" % (key, have), N.where, "no path handles some values", ())
    for bad in (v.CLOSURE, v.USERDATA):
        for f, na in (("put", 2), ("get", 1)):
            for have in ("no entry", "entry"):
                N = prep(C, na, have)
                N.settype(N.k, bad)
                if na == 2:
                    N.anytype(N.arg(2, N.V.obj("val")))
                for o in some(C, "key-types", f, N, N.run("buzzvstig_" + f)):
                    expect_error(C, "key-types", "%s with a %s key" % (f, v.TN[bad]), N, o, ("TYPE",))
    # get
    for key in ("int", "string", "float"):
        for have in ("no stigmergy", "no entry", "entry"):
            N = prep(C, 1, have, key)
            inst = "get, %s key, %s" % (key, have)
            for o in some(C, "get", inst, N, N.run("buzzvstig_get")):
                st = o.st
                r, good = ok(C, "get", inst, N, o)
                if not good:
                    continue
                others(C, "get", inst, N, st)
                l = (mk("obj", "data_l"), tl, rl)
                if have == "entry":
                    if r is not l[0]:
                        C.fail("get", inst, N.where, "returns %s" % (r and show(r)), st.trail)
                    msgs(C, "get", inst, N, st, [("VSTIG_QUERY", l)])
                    final(C, "get", inst, N, st, l)
                else:
                    if r is None or N.V.type_of(st, r) is not I(v.NIL):
                        C.fail("get", inst, N.where, "does not return nil", st.trail)
                    if have == "no entry":
                        m = N.evs(st, "out_vs")
                        if len(m) == 1 and N.V.type_of(st, m[0][4]) is I(v.NIL):
                            msgs(C, "get", inst, N, st, [("VSTIG_QUERY", (m[0][4], ZERO, N.V.robot))])
                        else:
                            C.fail("get", inst, N.where, "must query the neighbors with a nil entry (%d messages)" % len(m), st.trail)
                        final(C, "get", inst, N, st, None)
                    else:
                        msgs(C, "get", inst, N, st, [])
    # size
    for have in ("no stigmergy", "entry"):
        N = prep(C, 0, have)
        inst = "size, %s" % have
        if have == "entry":
            N.e.store(N.st, addc(N.data, v.DD["size"]), mk("vsize", width="u"), "i32")
        for o in some(C, "size", inst, N, N.run("buzzvstig_size")):
            st = o.st
            r, good = ok(C, "size", inst, N, o)
            if not good:
                continue
            others(C, "size", inst, N, st)
            msgs(C, "size", inst, N, st, [])
            w = ZERO if have == "no stigmergy" else mk("vsize", width="u")
            if r is None or N.V.type_of(st, r) is not I(v.INT) or N.V.ival(st, r) is not w:
                C.fail("size", inst, N.where, "returns %s" % (show(N.V.ival(st, r)) if r is not None else "nothing"), st.trail)
    # foreach
    N = prep(C, 1, "entry")
    cl = N.arg(1, N.V.obj("cl"))
    N.anytype(cl)
    items = []
    for i in range(3):
        k, el, d = N.V.obj("k%d" % i), mk("velem", "e%d" % i), N.V.obj("d%d" % i)
        N.st.facts[el] = (1, INF, frozenset())
        N.e.store(N.st, addc(el, N.VE["data"]), d, "ptr")
        N.e.store(N.st, addc(el, N.VE["robot"]), mk("er", i, width=16), "i16")
        items.append((k, el, d))
    N.st.ghost[("dconc", N.data)] = tuple((k, "ptr", el, "ptr") for k, el, d in items)
    kinds = set()
    for o in N.run("buzzvstig_foreach"):
        st = o.st
        inst = "foreach"
        C.ob("foreach", inst)
        calls = N.evs(st, "ccall")
        fails = len(N.evs(st, "callfail"))
        if st.ev(icmp("eq", N.V.type_of(st, cl), I(v.CLOSURE))) is not True:
            expect_error(C, "types", "foreach with something that is not a function", N, o, ("TYPE",))
            continue
        n = 3 if not fails else len(calls)
        for (k, el, d), c, i in zip(items, calls, range(3)):
            a = c[2]
            if c[1] is not cl or len(a) != 3 or a[0] is not k or a[1] is not d or fold(st, N.V.ival(st, a[2])) is not mk("er", i, width=16):
                C.fail("foreach", inst, N.where, "element %d is visited as %s" % (i, [show(x) for x in a]), st.trail)
        if len(calls) != n or fails > 1:
            C.fail("foreach", inst, N.where, "%d of 3 elements are visited, %d calls failed" % (len(calls), fails), st.trail)
        kinds.add(bool(fails))
        if fails and (N.state(st) is not I(v.ERROR) or N.evs(st, "ret") and False):
            C.fail("foreach", inst, N.where, "an error of the function is lost", st.trail)
        if not fails:
            r, good = ok(C, "foreach", inst, N, o)
    if kinds != {True, False}:
        C.fail("foreach", "foreach", N.where, "cases found: %s" % kinds, ())
    # managers
    for f in ("onconflict", "onconflictlost"):
        other = {"onconflict": "onconflictlost", "onconflictlost": "onconflict"}[f]
        for have in ("no stigmergy", "entry"):
            N = prep(C, 1, have)
            cl = N.arg(1, N.V.obj("cl"))
            N.anytype(cl)
            inst = "%s, %s" % (f, have)
            for o in some(C, "managers", inst, N, N.run("buzzvstig_" + f)):
                st = o.st
                get = lambda x: st.simp(N.e.load(st, addc(N.vs, N.VS[x]), "ptr"))
                if have == "entry" and st.ev(icmp("eq", N.V.type_of(st, cl), I(v.CLOSURE))) is not True:
                    expect_error(C, "types", "%s with something that is not a function" % f, N, o, ("TYPE",))
                    if get(f) is not mk("old", f):
                        C.fail("managers", inst, N.where, "the manager changes although the argument is refused", st.trail)
                    continue
                r, good = ok(C, "managers", inst, N, o)
                others(C, "managers", inst, N, st)
                if have == "entry":
                    if N.src(st, get(f)) is not cl or get(other) is not mk("old", other):
                        C.fail("managers", inst, N.where, "the manager is %s afterwards, the other one %s" % (show(N.src(st, get(f))), show(get(other))), st.trail)
                    if mk("old", f) in [x[1] for x in N.evs(st, "free")]:
                        C.fail("managers", inst, N.where, "frees the old manager, which the garbage collector owns", st.trail)
    # create
    for have in ("no stigmergy", "entry"):
        N = prep(C, 1, have)
        nid = N.intarg(1, "newid")
        N.anytype(N.args[1])
        N.st.mem.pop(N.args[1], None)
        ty = N.e.load(N.st, N.args[1], "i16")
        N.st.facts[ty] = (0, 6, frozenset())
        old = None
        if have == "entry":
            N.vstig(nid, 7)
            old = mk("vstig", 7)
        else:
            N.st.ghost[("d", VS, nid)] = "no"
        inst = "create, %s" % ("known id" if old is not None else "new id")
        for o in some(C, "create", inst, N, N.run("buzzvstig_create")):
            st = o.st
            if st.ev(icmp("eq", ty, I(v.INT))) is not True:
                expect_error(C, "types", "create with an id that is not an int", N, o, ("TYPE",))
                continue
            r, good = ok(C, "create", inst, N, o)
            if not good:
                continue
            for x in N.effects(st):
                if not (x[0] == "dset" and x[1] is VS and x[2] is nid or x[0] == "dremove" and x[1] is VS and x[2] is nid or x[0] == "vstig_gone"):
                    C.fail("create", inst, N.where, "has another effect: %s" % x[0], st.trail)
            vs = N.dictval(st, VS, nid, "ptr")
            if isinstance(vs, str) or vs is old:
                C.fail("create", inst, N.where, "no new stigmergy is registered under the id", st.trail)
                continue
            d = st.simp(N.e.load(st, addc(vs, N.VS["data"]), "ptr"))
            if not st.ghost.get(("dempty", d)) or any(x[0] == "dset" and x[1] is d for x in st.events):
                C.fail("create", inst, N.where, "the new stigmergy is not empty", st.trail)
            for f in ("onconflict", "onconflictlost"):
                if st.simp(N.e.load(st, addc(vs, N.VS[f]), "ptr")) is not ZERO:
                    C.fail("create", inst, N.where, "the new stigmergy already has a %s manager" % f, st.trail)
            m = table_of(N, st, r, nid)
            if m:
                C.fail("create", inst, N.where, m, st.trail)
    C.assume("16-bit timestamps do not wrap around; ids fit 16 bits")


def table_of(N, st, o, idt):
    v, e = N.v, N.e
    if o is None or N.V.type_of(st, o) is not I(v.TABLE):
        return "does not return a table"
    d = st.simp(e.load(st, addc(o, v.vt), "ptr"))
    got = {x[2]: x[3] for x in N.evs(st, "dset") if x[1] is d}
    x = got.get(N.skey("id"))
    if x is None or N.V.type_of(st, x) is not I(v.INT) or fold(st, N.V.ival(st, x)) is not fold(st, idt):
        return "the id of the returned stigmergy is %s" % (show(N.V.ival(st, x)) if x is not None else "missing")
    for m in METHODS:
        x = got.get(N.skey(m))
        if x is None or N.V.type_of(st, x) is not I(v.CLOSURE):
            return "method '%s' is missing" % m
        ref = st.simp(e.load(st, addc(x, v.cl["ref"]), "i32"))
        if ref is not mk("fid", mk("fn", "buzzvstig_" + m), width="u"):
            return "method '%s' is bound to %s" % (m, show(ref))
    return None


MINIMA = {"arity": 25, "types": 20, "put": 18, "key-types": 8, "get": 9, "size": 2, "foreach": 3, "managers": 4, "create": 2}
