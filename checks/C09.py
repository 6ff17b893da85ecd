"""Table and type functions. size, foreach, map, filter, reduce, clone, type, int, float and the is*() predicates are interpreted abstractly for all
argument counts and types; collections hold 0 to 3 entries with symbolic keys and values, called functions return arbitrary values or fail. Per
path: the calls made and their arguments, the table built, the value returned and the error must be those of the function's definition. The deep
copy made by clone() is decided type by type on buzzheap_clone()."""
from bzsa.terms import *
from bzsa.absint import INF
from bzsa.natenv import arity, expect_error, nottype, Safe
from bzsa.collenv import Cb
from bzsa.vmspec import fold, feasible


def ok(C, rule, inst, N, o):
    C.ob(rule, inst)
    k, x = N.result(o)
    if k != "ok":
        C.fail(rule, inst, N.where, "expected success, found %s %s" % (k, x if isinstance(x, str) else show(x)), o.st.trail)
        return None, False
    if N.effects(o.st) and [y for y in N.effects(o.st) if y[0] != "ccall"]:
        C.fail(rule, inst, N.where, "has the effect %s" % [y[0] for y in N.effects(o.st)], o.st.trail)
    return x, True


def calls(C, rule, inst, N, st, cl, ents, acc=None):
    """one call per entry in order, up to the first failure; returns the results, or None"""
    got = N.calls(st)
    fail = [i for i, c in enumerate(got) if c[2] is None]
    C.ob(rule, inst)
    if len(got) != (fail[0] + 1 if fail else len(ents)):
        C.fail(rule, inst, N.where, "%d calls for %d entries%s" % (len(got), len(ents), ", call %d fails" % (fail[0] + 1) if fail else ""), st.trail)
        return None
    for (k, kt, d), (c, a, r) in zip(ents, got):
        want = (k, d) + ((acc,) if acc is not None else ())
        if c is not cl or a != want:
            C.fail(rule, inst, N.where, "calls %s with (%s) instead of (%s)" % (show(c), ", ".join(map(show, a)), ", ".join(map(show, want))), st.trail)
            return None
        if acc is not None:
            acc = r
    if fail:
        if N.state(st) is not I(N.v.ERROR) or N.error(st) is not mk("callerr", width=32):
            C.fail(rule, inst, N.where, "the error of the called function is lost", st.trail)
        u = N.uaf(st)
        if u:
            C.fail(rule, inst, N.where, "%s is %s after it was released (%s)" % (show(u[0][1]), u[0][3], u[0][2]), st.trail)
        return None
    return [c[2] for c in got]


def same(C, rule, inst, N, st, got, want):
    if got != want:
        f = lambda m: "{%s}" % ", ".join("%s: %s" % (show(k), show(x)) for k, x in sorted(m.items(), key=str))
        C.fail(rule, inst, N.where, "the resulting table is %s instead of %s" % (f(got), f(want)), st.trail)


def collection(C, fname, fn, mk_args, check, n, inst):
    N, cl, ents, extra = mk_args(n)
    kinds = set()
    for o in N.run(fn):
        st = o.st
        r = calls(C, fname, inst, N, st, cl, ents, extra)
        kinds.add(r is not None)
        if r is None:
            continue
        x, good = ok(C, fname, inst, N, o)
        if good:
            check(N, st, x, ents, r, inst)
    if True not in kinds or (n and False not in kinds):
        C.fail(fname, inst, N.where, "no path %s" % ("succeeds" if True not in kinds else "handles a failing function"), ())


def unchanged(C, rule, inst, N, st, d):
    for x in N.evs(st, "dset", "dremove"):
        if x[1] is d:
            C.fail(rule, inst, N.where, "changes the table it is given", st.trail)


def chk_foreach(C, rule, d=None):
    def f(N, st, x, ents, r, inst):
        if x is not None and N.isnil(st, x) is not True:
            C.fail(rule, inst, N.where, "returns %s" % show(x), st.trail)
    return f


def chk_map(C, rule, table, keepnil=False):
    def f(N, st, x, ents, r, inst):
        got = table(N, st, x, inst)
        if got is None:
            return
        want = {}
        for (k, kt, d), y in zip(ents, r):
            nil = N.isnil(st, y)
            if keepnil and kt in got and nil is not False:
                want[kt] = y
            elif nil is None:
                C.fail(rule, inst, N.where, "does not distinguish nil results", st.trail)
            elif not nil:
                want[kt] = y
        same(C, rule, inst, N, st, got, want)
    return f


def chk_filter(C, rule, table):
    def f(N, st, x, ents, r, inst):
        got = table(N, st, x, inst)
        if got is None:
            return
        want = {}
        for (k, kt, d), y in zip(ents, r):
            t = N.truth(st, y)
            if t is None:
                C.fail(rule, inst, N.where, "does not determine the truth of the predicate's result", st.trail)
            elif t:
                want[kt] = d
        same(C, rule, inst, N, st, got, want)
    return f


def chk_reduce(C, rule, acc):
    def f(N, st, x, ents, r, inst):
        w = r[-1] if r else acc(N)
        if x is not w:
            C.fail(rule, inst, N.where, "returns %s instead of %s" % (show(x) if x is not None else "nil", show(w)), st.trail)
    return f


def newtable(C, rule, given):
    def f(N, st, x, inst):
        if x is None or N.V.type_of(st, x) is not I(N.v.TABLE) or x in given:
            C.fail(rule, inst, N.where, "does not return a new table", st.trail)
            return None
        return N.contents(st, x)
    return f


def run(C):
    v = C.env
    T_ = {"nil": v.NIL, "int": v.INT, "float": v.FLOAT, "string": v.STRING, "table": v.TABLE, "closure": v.CLOSURE, "userdata": v.USERDATA}
    fns = {"size": 1, "foreach": 2, "map": 2, "filter": 2, "reduce": 3, "clone": 1, "type": 1, "int": 1, "float": 1}
    for f, n in sorted(fns.items()):
        arity(C, "arguments", "buzzobj_" + f, (n,), 4, False)
    for t in T_:
        arity(C, "arguments", "buzzobj_closure_is" + t, (1,), 3, False)
    # argument types
    for f, i, ty in (("size", 1, v.TABLE), ("int", 1, v.FLOAT), ("float", 1, v.INT), ("foreach", 1, v.TABLE), ("map", 1, v.TABLE),
                     ("filter", 1, v.TABLE), ("reduce", 1, v.TABLE), ("foreach", 2, v.CLOSURE), ("map", 2, v.CLOSURE), ("filter", 2, v.CLOSURE),
                     ("reduce", 2, v.CLOSURE)):
        N = Cb(C, fns[f], False)
        for j in range(1, fns[f] + 1):
            if j == 1 and f not in ("int", "float", "size"):
                N.arg(1, N.tabobj("t", N.entries("t", 1))[0])
            elif j == 2:
                N.arg(2, N.V.obj("cl", v.CLOSURE))
        nottype(N, i, [ty])
        inst = "%s(): argument %d of another type" % (f, i)
        for o in N.run("buzzobj_" + f):
            expect_error(C, "arguments", inst, N, o, ("TYPE",))
    # collections
    for f in ("foreach", "map", "filter", "reduce"):
        for n in range(0, 4 if f in ("foreach", "reduce") else 3):
            inst = "%s(), %d entries" % (f, n)

            def args(n, f=f):
                N = Cb(C, fns[f], False)
                ents = N.entries("t", n)
                t, N.d = N.tabobj("t", ents)
                N.arg(1, t)
                cl = N.arg(2, N.V.obj("cl", v.CLOSURE))
                acc = N.arg(3, N.V.obj("acc")) if f == "reduce" else None
                N.given = {t, cl}
                return N, cl, ents, acc

            def chk(N, st, x, ents, r, inst, f=f):
                unchanged(C, f, inst, N, st, N.d)
                t = newtable(C, f, N.given)
                {"foreach": chk_foreach(C, f), "map": chk_map(C, f, t), "filter": chk_filter(C, f, t),
                 "reduce": chk_reduce(C, f, lambda N: N.args[3])}[f](N, st, x, ents, r, inst)
            collection(C, f, "buzzobj_" + f, args, chk, n, inst)
    # size
    N = Cb(C, 1, False)
    t, d = N.tabobj("t", [])
    N.arg(1, t)
    z = mk("tsize", width="u")
    N.st.facts[z] = (0, 2 ** 31 - 1, frozenset())
    N.e.store(N.st, addc(d, v.DD["size"]), z, "i32")
    for o in N.run("buzzobj_size"):
        x, good = ok(C, "size", "size()", N, o)
        if good and (N.V.type_of(o.st, x) is not I(v.INT) or fold(o.st, N.V.ival(o.st, x)) is not z):
            C.fail("size", "size()", N.where, "returns %s" % show(N.V.ival(o.st, x)), o.st.trail)
    # conversions
    for f, ty, w, off in (("int", v.FLOAT, "f32", v.vf), ("float", v.INT, "i32", v.vi)):
        N = Cb(C, 1, False)
        a = N.arg(1, N.V.obj("x", ty))
        x0 = N.e.load(N.st, addc(a, off), w)
        for o in N.run("buzzobj_" + f):
            inst = "%s()" % f
            x, good = ok(C, "conversions", inst, N, o)
            if not good:
                continue
            t = N.V.type_of(o.st, x)
            val = N.V.ival(o.st, x) if f == "int" else o.st.simp(N.V.fval(o.st, x))
            if t is not I(v.INT if f == "int" else v.FLOAT) or x0 not in atoms(val) or val.op not in ("f2i", "i2f"):
                C.fail("conversions", inst, N.where, "returns %s of type %s" % (show(val), show(t)), o.st.trail)
    # type, is*
    for t, ty in sorted(T_.items()):
        N = Cb(C, 1, False)
        N.arg(1, N.V.obj("x", ty))
        for o in N.run("buzzobj_type"):
            inst = "type() of a %s" % t
            x, good = ok(C, "types", inst, N, o)
            if not good:
                continue
            sid = o.st.simp(N.e.load(o.st, addc(x, v.sv["sid"]), "i16"))
            if N.V.type_of(o.st, x) is not I(v.STRING) or sid is not mk("sid", mk("str", {"int": "integer"}.get(t, t).encode()), width=16):
                C.fail("types", inst, N.where, "returns %s" % show(sid), o.st.trail)
        for q, qt in sorted(T_.items()):
            N = Cb(C, 1, False)
            N.arg(1, N.V.obj("x", ty))
            inst = "is%s() of a %s" % (q, t)
            for o in N.run("buzzobj_closure_is" + q):
                x, good = ok(C, "types", inst, N, o)
                if good and (N.V.type_of(o.st, x) is not I(v.INT) or fold(o.st, N.V.ival(o.st, x)) is not I(1 if q == t else 0)):
                    C.fail("types", inst, N.where, "returns %s" % show(N.V.ival(o.st, x)), o.st.trail)
    # clone
    N = Cb(C, 1, False)
    a = N.arg(1, N.V.obj("x"))
    N.anytype(a)
    for o in N.run("buzzobj_clone"):
        x, good = ok(C, "clone", "clone()", N, o)
        if good and x is a and all(o.st.ev(icmp("eq", N.V.type_of(o.st, a), I(t))) is False for t in (v.TABLE, v.CLOSURE)):
            continue        # immutable values need no copy
        if good and (x is a or N.src(o.st, x) is not a):
            C.fail("clone", "clone()", N.where, "returns %s" % show(x), o.st.trail)
    copies(C)


def copies(C):
    """buzzheap_clone, one type at a time; recursive calls are the induction hypothesis"""
    v = C.env
    for t, ty in (("nil", v.NIL), ("int", v.INT), ("float", v.FLOAT), ("string", v.STRING), ("userdata", v.USERDATA), ("closure", v.CLOSURE), ("table", v.TABLE)):
        for n in ((0, 1, 2) if t == "table" else (2,) if t == "closure" else (0,)):
            N = Safe(C, keep=("buzzheap_clone",))
            st, e = N.st, N.e
            heap = mk("objs")
            h = N.V.get(st, "heap", "ptr")
            st.facts[heap] = (1, INF, frozenset())
            HF = {f["name"]: f["off"] for f in C.prog.di["buzzheap_s"]["fields"]}
            e.store(st, addc(h, HF["objs"]), heap, "ptr")
            N.V.darray(heap, ZERO)
            src = N.V.obj("src", ty)
            ents = []
            if t == "table":
                d = mk("tdict", "src")
                st.facts[d] = (1, INF, frozenset())
                e.store(st, addc(src, v.vt), d, "ptr")
                st.ghost[("dks", d)] = 8
                for i in range(n):
                    k, x = N.V.obj("k%d" % i, v.INT), N.V.obj("d%d" % i)
                    e.store(st, addc(k, v.vi), mk("kv", i, width=32), "i32")
                    ents.append((k, x))
                st.ghost[("dconc", d)] = tuple((k, "ptr", x, "ptr") for k, x in ents)
            if t == "closure":
                da = mk("srcrec")
                st.facts[da] = (1, INF, frozenset())
                e.store(st, addc(src, v.cl["actrec"]), da, "ptr")
                N.V.darray(da, I(n))
                for i in range(n):
                    N.V.arrput(da, I(i), N.V.obj("c%d" % i))
            # the callee's recursive calls
            top = []

            def rec(e, st, args, fn, ins):
                return Safe.clone(N, e, st, args, fn, ins)
            real = C.prog.need("buzzheap_clone")
            e.models["buzzheap_clone"] = rec
            inst = "copy of a %s%s" % (t, " with %d entries" % n if t == "table" else "")
            for o in N.run("buzzheap_clone", [N.vm, src]):
                st = o.st
                C.ob("copies", inst)
                x = o.ret

                def bad(m):
                    C.fail("copies", inst, N.where, m, st.trail)
                if x is src or x is None or N.V.type_of(st, x) is not I(ty):
                    bad("the copy is %s" % (show(x) if x is not None else "nothing"))
                    continue
                z = N.V.asize(st, heap)
                if not (z.op == "i" and z.a[0] == 1 and N.V.aget(st, heap, ZERO) is x):
                    bad("the copy is not registered for garbage collection exactly once")
                for off, w in {"int": [(v.vi, "i32")], "float": [(v.vf, "f32")], "string": [(v.sv["sid"], "i16"), (v.sv["str"], "ptr")],
                               "userdata": [(v.vu, "ptr")], "closure": [(v.cl["ref"], "i32"), (v.cl["isnative"], "i8")]}.get(t, []):
                    a, b = fold(st, st.simp(e.load(st, addc(x, off), w))), fold(st, st.simp(e.load(st, addc(src, off), w)))
                    if a is not b:
                        bad("the field at offset %d of the copy is %s instead of %s" % (off, show(a), show(b)))
                if t == "closure":
                    r = st.simp(e.load(st, addc(x, v.cl["actrec"]), "ptr"))
                    z = N.V.asize(st, r)
                    g = [N.V.aget(st, r, I(i)) for i in range(z.a[0])] if z.op == "i" else None
                    if r is mk("srcrec") or g is None or [N.src(st, y) for y in g] != [mk("obj", "c%d" % i) for i in range(n)]:
                        bad("the captured symbols of the copy are %s" % (g and [show(y) for y in g]))
                if t == "table":
                    d2 = st.simp(e.load(st, addc(x, v.vt), "ptr"))
                    got = {}
                    for y in N.evs(st, "dset"):
                        if y[1] is d2:
                            got[y[2]] = y[3]
                    want = {mk("ikey", mk("kv", i, width=32)): ents[i][1] for i in range(n)}
                    if d2 is mk("tdict", "src") or set(got) != set(want) or any(N.src(st, got[k]) is not want[k] or got[k] is want[k] for k in want):
                        bad("the entries of the copy are %s" % {show(k): show(y) for k, y in got.items()})
                    if any(y[1] is mk("tdict", "src") for y in N.evs(st, "dset", "dremove")):
                        bad("the original is changed")


MINIMA = {"arguments": 40, "foreach": 8, "map": 8, "filter": 8, "reduce": 8, "size": 1, "conversions": 2, "types": 56, "clone": 1, "copies": 10}
