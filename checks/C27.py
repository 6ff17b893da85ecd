"""The library on booted machines. One or two whole machines (buzzvm_new, buzzvm_set_bcode, all libraries) are interpreted abstractly; library functions
are called by their documented names, as scripts do, in short histories: types and tables, mathematics, swarms, stigmergy, neighbors, and the exchange
of the messages in the machines' queues. Each step's value, and the state another robot ends up with, must be the documented one. Nothing is
replaced by a model except the C library; every memory access is an obligation, and destroying the machines must release every block."""
from bzsa.terms import *
from bzsa.vmconc import VMC, World, cf, f32
from bzsa.models import LIBC


def run(C):
    import math
    jobs = []
    k0 = VMC(C)
    boots = {}
    st0, vm0 = k0.boot(7)
    boots[7] = (st0, vm0)

    def world():
        w = World(C, k0, "buzzvm.c:buzzvm_set_bcode")
        w.add(7, st0, vm0)
        return w, w.r[7]

    def names():
        w, r = world()
        for n in ("math math.rng string io swarm stigmergy neighbors").split():
            r.get("names", n, lambda x: isinstance(x, tuple) and x[0] == "obj", "a table")
        r.get("names", "id", 7)
        r.get("names", "math.pi", lambda x: isinstance(x, float) and abs(x - math.pi) < 1e-6, "3.14159...")
        for rid in (0, 65535):
            st, vm = k0.boot(rid)
            w2 = World(C, k0, "buzzvm.c:buzzvm_set_bcode")
            w2.add(rid, st, vm).get("names", "id", rid)
    jobs.append(names)

    vals = {"nil": None, "int": 3, "float": 1.5, "string": b"s", "table": ("table", [(1, 2)]), "closure": None, "userdata": ("user", I(4096))}

    def types():
        w, r = world()
        for t, v in vals.items():
            if t == "closure":
                v = r.fun("c", lambda a: None)
            r.call("types", "type", [v], b"integer" if t == "int" else t.encode())
            for u in vals:
                r.call("types", "is" + u, [v], int(t == u))
        r.call("types", "int", [2.75], 2)
        r.call("types", "int", [-2.75], -2)
        r.call("types", "float", [3], 3.0)
    jobs.append(types)

    def tables():
        w, r = world()
        T_ = ("table", [(1, 10), (2, 20), (b"x", 30)])
        r.call("tables", "size", [T_], 3)
        r.call("tables", "size", [("table", [])], 0)
        got = []
        r.call("tables", "foreach", [T_, r.fun("f", lambda a: got.append(a))], None)
        r.expect("tables", "foreach(t, f)", sorted(got, key=str), sorted([(1, 10), (2, 20), (b"x", 30)], key=str))
        x = r.call("tables", "map", [T_, r.fun("m", lambda a: a[1] + 1)], w.table)
        r.expect("tables", "map(t, f)", r.entries(x), {1: 11, 2: 21, b"x": 31})
        x = r.call("tables", "filter", [T_, r.fun("p", lambda a: int(a[1] > 10))], w.table)
        r.expect("tables", "filter(t, f)", r.entries(x), {2: 20, b"x": 30})
        r.call("tables", "reduce", [T_, r.fun("r", lambda a: a[1] + a[2]), 5], 65)
        x = r.call("tables", "clone", [T_], w.table)
        r.expect("tables", "clone(t)", r.entries(x), {1: 10, 2: 20, b"x": 30})
    jobs.append(tables)

    def maths():
        w, r = world()
        for f in "log log2 log10 exp sqrt sin cos tan asin acos".split():
            for x in (0.5, 1):
                r.call("math", "math." + f, [x], lambda y, f=f, x=x: y is mk("call", f, cf(x)) or isinstance(y, float) and abs(y - getattr(math, f)(x)) < 1e-5, "%s(%s)" % (f, x))
        r.call("math", "math.atan", [0.5, 2.0], lambda y: y is mk("call", "atan2", cf(0.5), cf(2)), "atan2(0.5,2)")
        r.call("math", "math.abs", [-3], 3)
        r.call("math", "math.min", [-3, 4], -3)
        r.call("math", "math.max", [-3, 4], 4)
        r.call("math", "math.min", [4, 1.5], 1.5)
        r.call("math", "math.max", [4, 1.5], 4)
        for f in ("floor", "ceil", "round"):
            r.call("math", "math." + f, [5], 5)
        r.call("math", "math.rng.setseed", [42], None)
        a = [r.call("math", "math.rng.uniform", [0, 1000], lambda x: isinstance(x, int) and 0 <= x <= 1000, "an int in range") for _ in range(3)]
        r.call("math", "math.rng.setseed", [42], None)
        b = [r.call("math", "math.rng.uniform", [0, 1000], lambda x: isinstance(x, int) and 0 <= x <= 1000, "an int in range") for _ in range(3)]
        r.expect("math", "the sequence after setseed(42)", b, a)
    jobs.append(maths)

    def swarms():
        w, r = world()
        s = r.call("swarm", "swarm.create", [3], w.table)
        r.get("swarm", s, 3, "id")
        r.method("swarm", s, "in", [], 0)
        r.method("swarm", s, "join", [], None)
        r.method("swarm", s, "in", [], 1)
        seen = []

        def body(a):
            seen.append(a)
            r.call("swarm", "swarm.id", [], 3)
        r.method("swarm", s, "exec", [r.fun("b", body)], None)
        r.expect("swarm", "exec(f) by a member", len(seen), 1)
        o = r.method("swarm", s, "others", [4], w.table)
        r.method("swarm", o, "in", [], 0)
        r.method("swarm", s, "leave", [], None)
        r.method("swarm", s, "in", [], 0)
        r.method("swarm", s, "exec", [r.fun("b2", body)], None)
        r.expect("swarm", "exec(f) by a non-member", len(seen), 1)
        r.method("swarm", s, "select", [1], None)
        r.method("swarm", s, "in", [], 1)
        r.method("swarm", s, "select", [0], None)
        r.method("swarm", s, "in", [], 0)
        r.method("swarm", s, "join", [], None)
        t = r.call("swarm", "swarm.create", [5], w.table)
        for f, i, inn in (("union", 10, 1), ("intersection", 11, 0), ("difference", 12, 1)):
            u = r.call("swarm", "swarm." + f, [i, s, t], w.table)
            r.get("swarm", u, i, "id")
            r.method("swarm", u, "in", [], inn)
    jobs.append(swarms)

    def stig():
        w, r = world()
        v = r.call("stigmergy", "stigmergy.create", [1], w.table)
        r.method("stigmergy", v, "size", [], 0)
        r.method("stigmergy", v, "get", [b"k"], None)
        for key, val in ((b"k", 5), (2, b"text"), (b"k", 6)):
            r.method("stigmergy", v, "put", [key, val], None)
            r.method("stigmergy", v, "get", [key], val)
        r.method("stigmergy", v, "size", [], 2)
        got = []
        r.method("stigmergy", v, "foreach", [r.fun("f", lambda a: got.append(a))], None)
        r.expect("stigmergy", "foreach(f)", sorted(got, key=str), sorted([(b"k", 6, 7), (2, b"text", 7)], key=str))
        r.method("stigmergy", v, "put", [b"k", None], None)
        r.method("stigmergy", v, "get", [b"k"], None)
        r.method("stigmergy", v, "onconflict", [r.fun("c", lambda a: None)], None)
        r.method("stigmergy", v, "onconflictlost", [r.fun("l", lambda a: None)], None)
        u = r.call("stigmergy", "stigmergy.create", [2], w.table)
        r.method("stigmergy", u, "get", [2], None)
        r.method("stigmergy", v, "get", [2], b"text")
    jobs.append(stig)

    def near():
        w, r = world()
        for step in ("first", "second"):
            r.api("buzzneighbors_reset")
            n = [(1, 1.5, 0.5, 0.25), (9, 2.5, -0.5, 0.0)] if step == "first" else [(4, 3.0, 1.0, -1.0)]
            for i, d, a, e in n:
                r.api("buzzneighbors_add", I(i), cf(d), cf(a), cf(e))
            nb = r.get("neighbors", "neighbors", w.table)
            r.method("neighbors", nb, "count", [], len(n))
            for i, d, a, e in n:
                x = r.method("neighbors", nb, "get", [i], w.table)
                r.expect("neighbors", "get(%d)" % i, {q: y for q, y in r.entries(x).items() if q in (b"distance", b"azimuth", b"elevation")}, {b"distance": d, b"azimuth": a, b"elevation": e})
            r.method("neighbors", nb, "get", [77], None)
            ids = []
            r.method("neighbors", nb, "foreach", [r.fun("f" + step, lambda a: ids.append(a[0]))], None)
            r.expect("neighbors", "foreach(f)", sorted(ids), sorted(i for i, *_ in n))
            r.method("neighbors", nb, "reduce", [r.fun("r" + step, lambda a: a[2] + a[0]), 100], 100 + sum(i for i, *_ in n))
            m = r.method("neighbors", nb, "filter", [r.fun("p" + step, lambda a: int(a[0] > 3))], w.table)
            r.method("neighbors", m, "count", [], len([1 for i, *_ in n if i > 3]))
            m = r.method("neighbors", nb, "map", [r.fun("m" + step, lambda a: a[0] * 2)], w.table)
            r.method("neighbors", m, "count", [], len(n))
    jobs.append(near)

    # ---- two robots ---------------------------------------------------------------------
    def pair():
        w, a = world()
        st, vm = k0.boot(2305, w.st)
        b = w.add(2305, st, vm)
        return w, a, b

    VALS = [5, -7, 2147483647, b"text", b"", None]

    def stig2():
        w, a, b = pair()
        va = a.call("stigmergy", "stigmergy.create", [1], w.table)
        vb = b.call("stigmergy", "stigmergy.create", [1], w.table)
        for x in (5, -7, b"text", b""):
            a.method("exchange", va, "put", [b"k", x], None)
            w.deliver(a, b)
            b.method("exchange", vb, "get", [b"k"], x)
            w.deliver(b, a)
            a.method("exchange", va, "get", [b"k"], x)
        b.method("exchange", vb, "put", [b"k", 99], None)
        w.deliver(b, a)
        a.method("exchange", va, "get", [b"k"], 99)
        got = []
        a.method("exchange", va, "foreach", [a.fun("who", lambda x: got.append(x))], None)
        a.expect("exchange", "the writer recorded with the value", got, [(b"k", 99, 2305)])
        # a table value
        a.method("exchange", va, "put", [b"t", ("table", [(1, b"one"), (b"two", 2)])], None)
        w.deliver(a, b)
        x = b.method("exchange", vb, "get", [b"t"], w.table)
        b.expect("exchange", "a table put by the other robot", b.entries(x), {1: b"one", b"two": 2})
        # a robot that missed the value asks for it and is told
        st, vm = k0.boot(12, w.st)
        w.st = st
        c = w.add(12, st, vm)
        vc = c.call("stigmergy", "stigmergy.create", [1], w.table)
        c.method("exchange", vc, "get", [b"k"], None)
        w.deliver(c, a)
        w.deliver(a, c)
        c.method("exchange", vc, "get", [b"k"], 99)
    jobs.append(stig2)

    def conflict():
        for rule in (None, "keep", "mine"):
            w, a, b = pair()
            va = a.call("stigmergy", "stigmergy.create", [1], w.table)
            vb = b.call("stigmergy", "stigmergy.create", [1], w.table)
            lost = []
            calls = []
            if rule:
                def oc(x):
                    calls.append(x)
                    # x: key, local entry, remote entry; the smaller datum wins on both robots
                    return x
                for r, v in ((a, va), (b, vb)):
                    def f(args, r=r):
                        l, q = r.entries(args[1]), r.entries(args[2])
                        calls.append((r.rid, args[0], l.get(b"data"), q.get(b"data")))
                        return args[1] if l[b"data"] <= q[b"data"] else args[2]
                    r.method("conflict", v, "onconflict", [r.fun("oc%d" % r.rid, f)], None)
            for r, v in ((a, va), (b, vb)):
                r.method("conflict", v, "onconflictlost", [r.fun("ol%d" % r.rid, lambda args, r=r: lost.append((r.rid, args[0])))], None)
            x, y = (1, 2) if rule != "mine" else (2, 1)
            a.method("conflict", va, "put", [b"k", x], None)
            b.method("conflict", vb, "put", [b"k", y], None)
            w.cross(a, b)
            w.deliver(a, b)
            w.deliver(b, a)
            want = y if not rule else min(x, y)       # without a rule the robot with the larger id wins
            a.method("conflict", va, "get", [b"k"], want)
            b.method("conflict", vb, "get", [b"k"], want)
            loser = 7 if want == y else 2305
            a.expect("conflict", "onconflictlost calls (%s)" % (rule or "default"), sorted(set(lost)), [(loser, b"k")])
    jobs.append(conflict)

    def talk():
        w, a, b = pair()
        nb = b.get("broadcast", "neighbors", w.table)
        na = a.get("broadcast", "neighbors", w.table)
        for i, x in enumerate((5, b"hello", 0, b"")):
            got = []
            b.method("broadcast", nb, "listen", [b"topic", b.fun("l%d" % i, lambda q: got.append(q))], None)
            a.method("broadcast", na, "broadcast", [b"topic", x], None)
            a.method("broadcast", na, "broadcast", [b"other", 1], None)
            w.deliver(a, b)
            b.expect("broadcast", "the listener's calls for %r" % (x,), got, [(b"topic", x, 7)])
        got = []
        b.method("broadcast", nb, "listen", [b"topic", b.fun("last", lambda q: got.append(q))], None)
        b.method("broadcast", nb, "ignore", [b"topic"], None)
        a.method("broadcast", na, "broadcast", [b"topic", 3], None)
        w.deliver(a, b)
        b.expect("broadcast", "the listener's calls after ignore()", got, [])
        got = []
        a.method("broadcast", na, "listen", [b"topic", a.fun("back", lambda q: got.append(q))], None)
        b.method("broadcast", nb, "broadcast", [b"topic", 8], None)
        b.method("broadcast", nb, "broadcast", [b"topic", b"two"], None)
        w.deliver(b, a)
        a.expect("broadcast", "the listener's calls", got, [(b"topic", 8, 2305), (b"topic", b"two", 2305)])
    jobs.append(talk)

    def kin():
        w, a, b = pair()
        sa = a.call("membership", "swarm.create", [3], w.table)
        sb = b.call("membership", "swarm.create", [3], w.table)
        b.api("buzzneighbors_add", I(7), cf(1.5), cf(0), cf(0))

        def count(inside, kin, nonkin, inst):
            nb = b.get("membership", "neighbors", w.table)
            for f, want in (("kin", kin), ("nonkin", nonkin)):
                out = []

                def body(args, f=f):
                    q = b.get("membership", "neighbors", w.table)
                    x = b.method("membership", q, f, [], w.table)
                    out.append(b.method("membership", x, "count", [], lambda z: isinstance(z, int), "an int"))
                b.method("membership", sb, "exec", [b.fun("%s%d" % (f, len(b.funs)), body)], None)
                b.expect("membership", "%s neighbors %s" % (f, inst), out, [want])
        b.method("membership", sb, "join", [], None)
        count(True, 0, 1, "before the other robot joins")
        a.method("membership", sa, "join", [], None)
        w.deliver(a, b)
        count(True, 1, 0, "after the other robot joined")
        a.method("membership", sa, "leave", [], None)
        w.deliver(a, b)
        count(True, 0, 1, "after the other robot left")
        a.method("membership", sa, "join", [], None)
        w.drop(a)
        for i in range(12):
            a.api("buzzvm_process_outmsgs")
        w.deliver(a, b)
        count(True, 1, 0, "after the periodic membership message")
    jobs.append(kin)

    def release():
        w, a, b = pair()
        va = a.call("release", "stigmergy.create", [1], w.table)
        vb = b.call("release", "stigmergy.create", [1], w.table)
        a.method("release", va, "put", [b"k", ("table", [(1, b"x")])], None)
        s = a.call("release", "swarm.create", [3], w.table)
        a.method("release", s, "join", [], None)
        n = a.get("release", "neighbors", w.table)
        a.method("release", n, "broadcast", [b"t", b"v"], None)
        w.deliver(a, b)
        b.method("release", vb, "put", [b"q", 3], None)
        a.method("release", va, "put", [b"q", 4], None)
        w.feed(b, a)
        for r in (a, b):
            k0.tag = "destroying robot %d" % r.rid
            w.st = w.st.copy()
            pv = k0.local(w.st, "ptr", r.vm)
            w.st, _ = k0.call(w.st, "buzzvm_destroy", pv)
            w.st = w.st.copy()
            k0.kill(w.st, pv)
        left = [t for t in k0.leaks(w.st) if t not in w.st.ghost.get("own", ())]
        C.ob("release", "two robots")
        if left:
            C.fail("release", "two robots", "buzzvm.c:buzzvm_destroy", "%d blocks are never released after an exchange of messages" % len(left), ())
    jobs.append(release)
    C.parallel(jobs, e=k0.e)
    C.absorb(k0.e)
    C.assume("the C library behaves as the C standard says; messages are delivered whole")


MINIMA = {"names": 10, "types": 50, "tables": 8, "math": 30, "swarm": 20, "stigmergy": 15, "neighbors": 15, "exchange": 20, "conflict": 12, "broadcast": 12, "membership": 15, "release": 1, "memory": 50000}
