"""Math library. The functions of math and math.rng are interpreted abstractly for all argument counts, argument types and values: arguments are
objects whose type is unconstrained, numbers are symbols, and the value returned on each path is an expression over them. That expression must be
the mathematical function of the arguments (float and double variants of a C function count as the same function; other expressions are compared
by evaluating both at sample points), with the result type the manual gives, and every other type or argument count must be an error.
Random numbers are expressions over the draws; the generator itself is interpreted for its 624-word state, where nothing but the seed may
influence a draw and the words must follow the Mersenne Twister recurrence."""
import math, random
from bzsa.terms import *
from bzsa.absint import INF
from bzsa.natenv import Fun, arity, expect_error, nottype
from bzsa.vmspec import fold
from bzsa.conc import Conc, wrap

UN = ["log", "log2", "log10", "exp", "sqrt", "sin", "cos", "tan", "asin", "acos"]
RND = ["floor", "ceil", "round"]


class Undef(Exception):
    pass


def ev(t, env):
    """numeric value of an expression"""
    if t in env:
        return env[t]
    op, a = t.op, t.a
    if op == "i":
        return a[0]
    if op == "cf":
        return float(a[0])
    if op == "lin":
        k, ps = lin_parts(t)
        return k + sum(c * ev(x, env) for x, c in ps)
    try:
        if op == "call":
            x = [ev(y, env) for y in a[1:]]
            f = {"fabs": abs, "round": lambda v: math.floor(abs(v) + .5) * (1 if v >= 0 else -1), "trunc": math.trunc}.get(a[0])
            n = a[0].split(".")[1] if a[0].startswith("llvm.") else a[0]
            f = f or {"fabs": abs, "round": lambda v: math.floor(abs(v) + .5) * (1 if v >= 0 else -1),
                      "fmuladd": lambda p, q, r: p * q + r, "fma": lambda p, q, r: p * q + r}.get(n) or getattr(math, n, None)
            if f is None:
                raise Undef("unknown function %s" % n)
            return f(*x)
        if op in ("i2f",):
            return float(ev(a[0], env))
        if op == "f2i":
            return int(ev(a[0], env))
        if op == "fneg":
            return -ev(a[0], env)
        x = [ev(y, env) for y in a if hasattr(y, "op")]
        f = {"fadd": lambda p, q: p + q, "fsub": lambda p, q: p - q, "fmul": lambda p, q: p * q, "fdiv": lambda p, q: p / q,
             "mul": lambda p, q: p * q, "add": lambda p, q: p + q, "sub": lambda p, q: p - q}.get(op)
        if f:
            return f(*x)
    except (ValueError, OverflowError, ZeroDivisionError):
        raise Undef("no value")
    raise Undef("unknown operation %s in %s" % (op, show(t)))


def same(t, spec, vs, dom):
    """None, or a point where the expression differs from the specification"""
    rnd = random.Random(1)
    n = 0
    for _ in range(200):
        env = {v: (dom[v](rnd) if v in dom else rnd.uniform(-4, 4)) for v in vs}
        try:
            want = spec(env)
        except (ValueError, OverflowError, ZeroDivisionError):
            continue
        n += 1
        try:
            got = ev(t, env)
        except Undef as x:
            return str(x)
        if abs(got - want) > 1e-6 * max(1, abs(want)):
            return "%g instead of %g for %s" % (got, want, ", ".join("%s = %g" % (show(k), x) for k, x in env.items()))
    return None if n > 2 else "no point to compare"


def numarg(N, i, ty):
    """argument i: an int or a float with a symbolic value; returns the term of its value as a number"""
    v = N.v
    o = N.V.obj("num%d" % i, v.INT if ty == "int" else v.FLOAT)
    N.arg(i, o)
    if ty == "int":
        x = mk("val", "x%d" % i, width=32)
        N.e.store(N.st, addc(o, v.vi), x, "i32")
        return x
    x = mk("fval", "x%d" % i)
    N.e.store(N.st, addc(o, v.vf), x, "f32")
    return x


def value(N, st, o):
    """('int', term) or ('float', term) or None"""
    if o is None:
        return None
    t = N.V.type_of(st, o)
    if t is I(N.v.INT):
        return "int", fold(st, st.simp(N.e.load(st, addc(o, N.v.vi), "i32")))
    if t is I(N.v.FLOAT):
        return "float", fold(st, st.simp(N.e.load(st, addc(o, N.v.vf), "f32")))
    return None


def unary(C, f, spec, tys, dom=None):
    fn = "buzzmath_" + f
    arity(C, "arguments", fn, (1,), 3, False)
    N = Fun(C, 1, False)
    nottype(N, 1, (N.v.INT, N.v.FLOAT))
    for o in N.run(fn):
        expect_error(C, "arguments", "math.%s() of something that is not a number" % f, N, o, ("TYPE",))
    for ty in ("int", "float"):
        N = Fun(C, 1, False)
        x = numarg(N, 1, ty)
        inst = "math.%s(%s)" % (f, ty)
        n = 0
        for o in N.run(fn):
            C.ob("values", inst)
            k, r = N.result(o)
            if k != "ok":
                C.fail("values", inst, N.where, "expected a value, found %s %s" % (k, r if isinstance(r, str) else show(r)), o.st.trail)
                continue
            n += 1
            rv = value(N, o.st, r)
            if rv is None or rv[0] != tys[ty]:
                C.fail("values", inst, N.where, "the result is not a %s" % tys[ty], o.st.trail)
                continue

            m = compare(N, o.st, rv[1], lambda env: spec(env[x]), x, ty, dom)
            if m:
                C.fail("values", inst, N.where, "computes %s: %s" % (show(rv[1]), m), o.st.trail)
        if not n:
            C.fail("values", inst, "buzzmath.c:" + fn, "no path returns a value", ())


def compare(N, st, t, spec, x, ty, dom):
    """t equals spec at the sample points allowed by the path's facts about x"""
    lo, hi = st.bounds(x) if ty == "int" else (-INF, INF)

    def pick(rnd):
        if ty == "int":
            a, b = max(lo, -40 if not dom or dom[0] < 0 else 0), min(hi, 40 if not dom or dom[1] > 1 else 1)
            return rnd.randint(a, b) if a <= b else (int(lo) if lo > -INF else int(hi))
        if dom:
            return rnd.uniform(*dom)
        return rnd.choice((rnd.uniform(-4, 4), rnd.uniform(-400, 400), rnd.randint(-4, 4) + .5, float(rnd.randint(-3, 3))))
    d = {x: pick}
    if ty == "float":
        # a path may have tested the sign
        neg = st.ev(mk("flt", x, mk("cf", "0")))
        if neg is True:
            d[x] = lambda r: -abs(pick(r)) - 1e-3
        elif neg is False:
            d[x] = lambda r: abs(pick(r))
    return same(t, spec, [x], d)


def minmax(C, f):
    """min and max return the smaller/larger argument itself, as decided by the language's comparison"""
    fn = "buzzmath_" + f
    arity(C, "arguments", fn, (2,), 4, False)
    for comparable in (0, 1):
        for cmp in ((-1, 0, 1) if comparable else (0,)):
            N = Fun(C, 2, False)
            a, b = N.args[1], N.args[2]
            for q in (a, b):
                N.anytype(q)

            def m_c(e, st, args, fn, ins):
                st.ev_add("q", tuple(args))
                return st, I(comparable)

            def m_cmp(e, st, args, fn, ins):
                z = args[0] is args[1]
                return st, I(0 if z else cmp if args[0] is a else -cmp)
            N.e.models["buzzobj_comparable"] = m_c
            N.e.models["buzzobj_cmp"] = m_cmp
            inst = "math.%s(a,b) when %s" % (f, "they cannot be compared" if not comparable else "a %s b" % {-1: "<", 0: "==", 1: ">"}[cmp])
            for o in N.run(fn):
                if not comparable:
                    expect_error(C, "min and max", inst, N, o, ("TYPE",))
                    continue
                C.ob("min and max", inst)
                k, r = N.result(o)
                small = {-1: (a,), 0: (a, b), 1: (b,)}[cmp if f == "min" else -cmp]
                if k != "ok" or r not in small:
                    C.fail("min and max", inst, N.where, "returns %s %s" % (k, r if isinstance(r, str) else show(r) if r is not None else "nil"), o.st.trail)


def atan(C):
    fn = "buzzmath_atan"
    arity(C, "arguments", fn, (2,), 4, False)
    for i in (1, 2):
        for other in ("int", "float"):
            N = Fun(C, 2, False)
            numarg(N, 3 - i, other)
            nottype(N, i, (N.v.INT, N.v.FLOAT))
            for o in N.run(fn):
                expect_error(C, "arguments", "math.atan() with argument %d not a number" % i, N, o, ("TYPE",))
    for t1 in ("int", "float"):
        for t2 in ("int", "float"):
            N = Fun(C, 2, False)
            y, x = numarg(N, 1, t1), numarg(N, 2, t2)
            inst = "math.atan(%s,%s)" % (t1, t2)
            for o in N.run(fn):
                C.ob("values", inst)
                k, r = N.result(o)
                rv = value(N, o.st, r) if k == "ok" else None
                if rv is None or rv[0] != "float":
                    C.fail("values", inst, N.where, "expected a float, found %s" % k, o.st.trail)
                    continue
                m = same(rv[1], lambda env: math.atan2(env[y], env[x]), [x, y], {x: lambda r: r.uniform(-3, 3), y: lambda r: r.uniform(-3, 3)})
                if m:
                    C.fail("values", inst, N.where, "computes %s: %s" % (show(rv[1]), m), o.st.trail)


# ---- random numbers ---------------------------------------------------------------------
M32 = 0xFFFFFFFF


class Rng(Fun):
    def __init__(s, C, nargs):
        Fun.__init__(s, C, nargs, False)
        s.draws = []

        def draw(e, st, args, fn, ins):
            d = mk("draw", e.site(fn, ins), width=32)
            st.facts.setdefault(d, (0, M32, frozenset()))
            return st, d
        s.e.models["mt_uniform32"] = draw


def rng_args(C):
    for f, ok in (("setseed", (1,)), ("uniform", (0, 1, 2)), ("gaussian", (0, 1, 2)), ("exponential", (1,))):
        fn = "buzzmath_rng_" + f
        for n in range(0, 5):
            if n not in ok:
                N = Rng(C, n)
                for j in range(1, n + 1):
                    numarg(N, j, "int")
                for o in N.run(fn):
                    expect_error(C, "arguments", "math.rng.%s() with %d arguments" % (f, n), N, o, ("LNUM",))
        for n in ok:
            for i in range(1, n + 1):
                N = Rng(C, n)
                for j in range(1, n + 1):
                    if j != i:
                        numarg(N, j, "float")
                nottype(N, i, (N.v.INT, N.v.FLOAT) if f != "setseed" else (N.v.INT,))
                for o in N.run(fn):
                    expect_error(C, "arguments", "math.rng.%s() with argument %d of %d of another type" % (f, i, n), N, o, ("TYPE",))


def rng_linear(C):
    """gaussian: mean + stddev * (a value independent of both); exponential: mean * a value >= 0 independent of it"""
    jobs = [("gaussian", ts) for ts in ((), ("int",), ("float",), ("int", "int"), ("int", "float"), ("float", "int"), ("float", "float"))]
    jobs += [("exponential", ("int",)), ("exponential", ("float",))]
    for f, ts in jobs:
        N = Rng(C, len(ts))
        xs = [numarg(N, i + 1, t) for i, t in enumerate(ts)]
        inst = "math.rng.%s(%s)" % (f, ",".join(ts))
        n = 0
        for o in N.run("buzzmath_rng_" + f):
            C.ob("distributions", inst)
            k, r = N.result(o)
            rv = value(N, o.st, r) if k == "ok" else None
            if rv is None or rv[0] != "float":
                C.fail("distributions", inst, N.where, "expected a float, found %s" % k, o.st.trail)
                continue
            n += 1
            t = rv[1]
            ats = [a for a in leaves(t) if a not in xs]
            rnd = random.Random(3)
            npt = 0
            for _ in range(60):
                env = {a: (rnd.randint(1, M32) if a.op == "draw" else rnd.uniform(.05, .95)) for a in ats}
                pt = {x: (rnd.randint(-9, 9) if ts[i] == "int" else rnd.uniform(-9, 9)) for i, x in enumerate(xs)}
                try:
                    unit = ev(t, dict(env, **{})) if not xs else ev(t, {**env, **dict(zip(xs, (1, 0)[:len(xs)]))})
                    got = ev(t, {**env, **pt})
                    if f == "gaussian" and not xs:
                        # against the definition: Box-Muller over the accepted pair is checked by its shape only
                        npt += 1
                        continue
                except Undef as x:
                    if "unknown" in str(x):
                        C.fail("distributions", inst, N.where, str(x), o.st.trail)
                        break
                    continue
                npt += 1
                p = [pt[x] for x in xs]
                want = p[0] * unit + (p[1] if len(p) > 1 else 0)
                if f == "exponential" and unit < 0:
                    C.fail("distributions", inst, N.where, "draws a negative value for a positive mean", o.st.trail)
                    break
                if abs(got - want) > 1e-5 * max(1, abs(want)):
                    C.fail("distributions", inst, N.where, "is not scaled by its arguments: %g instead of %g for (%s)" % (got, want,
                           ", ".join("%g" % y for y in p)), o.st.trail)
                    break
            if npt < 5:
                C.notes.append("%s: no point to evaluate" % inst)
        if not n:
            C.fail("distributions", inst, "buzzmath.c:buzzmath_rng_" + f, "no path returns a value", ())


def stray(t):
    """is the value of a memory cell, or of the wrong member of an object, part of the expression?"""
    return t.op in ("reinterp", "ld") or any(stray(x) for x in t.a if hasattr(x, "op"))


def leaves(t, acc=None):
    acc = set() if acc is None else acc
    if t.op in ("i", "cf"):
        return acc
    if t.op == "lin":
        for x, c in lin_parts(t)[1]:
            leaves(x, acc)
        return acc
    if t.op in ("call", "i2f", "f2i", "fneg", "fadd", "fsub", "fmul", "fdiv", "mul", "add", "sub"):
        for x in t.a:
            if hasattr(x, "op"):
                leaves(x, acc)
        return acc
    acc.add(t)
    return acc


class Stub:
    def cells(s, st, t, n):
        return []


def rng_uniform(C):
    from bzsa.conc import CI
    K = [-2147483648, -7, -1, 0, 1, 2, 10, 65536, 2147483646, 2147483647]
    D = [0, 1, 2, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF]
    fn = "buzzmath_rng_uniform"
    N = Rng(C, 0)
    for o in N.run(fn):
        inst = "math.rng.uniform()"
        C.ob("ranges", inst)
        k, r = N.result(o)
        rv = value(N, o.st, r) if k == "ok" else None
        if rv is None or rv[0] != "int":
            C.fail("ranges", inst, N.where, "expected an int, found %s" % k, o.st.trail)
    # integers: exact arithmetic of the declared widths at the corners of the ranges
    for args in [(x,) for x in K] + [(x, y) for x in K for y in K]:
        lo, hi = (min(0, args[0]), max(0, args[0])) if len(args) == 1 else (min(args), max(args))
        hit = set()
        for d in D:
            N = Rng(C, len(args))
            N.e.__class__ = CI
            N.e.conc = Stub()
            N.e.models["mt_uniform32"] = lambda e, st, a, fn, ins: (st, I(wrap(d, 32)))
            for i, x in enumerate(args):
                o = N.V.obj("num%d" % (i + 1), N.v.INT)
                N.e.store(N.st, addc(o, N.v.vi), I(x), "i32")
                N.arg(i + 1, o)
            inst = "math.rng.uniform(%s), draw %d" % (",".join(map(str, args)), d)
            for o in N.run(fn):
                C.ob("ranges", inst)
                k, r = N.result(o)
                rv = value(N, o.st, r) if k == "ok" else None
                if rv is None or rv[0] != "int" or rv[1].op != "i":
                    if rv is not None and rv[0] == "int":
                        C.notes.append("%s: value not determined" % inst)
                        continue
                    C.fail("ranges", inst, N.where, "expected an int, found %s" % k, o.st.trail)
                    continue
                z = wrap(rv[1].a[0], 32)
                hit.add(z)
                if not lo <= z <= hi:
                    C.fail("ranges", "math.rng.uniform() of %d ints" % len(args), N.where, "%s gives %d" % (inst, z), o.st.trail)
        if hi > lo and len(hit) < 2:
            C.fail("ranges", "math.rng.uniform() of %d ints" % len(args), N.where, "every draw gives the same value for %s" % (args,), ())
    # floats: the expression over the draw, evaluated
    for ts in (("float",), ("int", "float"), ("float", "int"), ("float", "float")):
        N = Rng(C, len(ts))
        xs = [numarg(N, i + 1, t) for i, t in enumerate(ts)]
        inst = "math.rng.uniform(%s)" % ",".join(ts)
        for o in N.run(fn):
            C.ob("ranges", inst)
            k, r = N.result(o)
            rv = value(N, o.st, r) if k == "ok" else None
            if rv is None or rv[0] != "float":
                C.fail("ranges", inst, N.where, "expected a float, found %s" % k, o.st.trail)
                continue
            other = [a for a in leaves(rv[1]) if a not in xs and stray(a)]
            if other:
                C.fail("ranges", inst, N.where, "depends on %s, which is neither an argument nor a draw" % show(other[0]), o.st.trail)
                continue
            rnd = random.Random(5)
            for _ in range(60):
                p = [rnd.randint(-9, 9) if t == "int" else rnd.uniform(-9, 9) for t in ts]
                lo, hi = (min([0] + p) if len(p) == 1 else min(p)), (max([0] + p) if len(p) == 1 else max(p))
                got = []
                for d in D:
                    env = dict(zip(xs, p))
                    env.update({a: d for a in leaves(rv[1]) if a.op == "draw"})
                    try:
                        got.append(ev(rv[1], env))
                    except Undef as x:
                        C.notes.append("%s: %s" % (inst, x))
                        break
                    if not lo - 1e-6 <= got[-1] <= hi + 1e-6:
                        C.fail("ranges", inst, N.where, "gives %g for (%s), draw %d" % (got[-1], ", ".join("%g" % y for y in p), d), o.st.trail)
                        return
                if len(got) == len(D) and hi - lo > 1 and len(set(got)) < 2:
                    C.fail("ranges", inst, N.where, "every draw gives the same value", o.st.trail)
                    return


def mt_ref(w):
    i = 624
    while True:
        if i == 624:
            for k in range(624):
                y = (w[k] & 0x80000000) | (w[(k + 1) % 624] & 0x7fffffff)
                w[k] = w[(k + 397) % 624] ^ (y >> 1) ^ (0x9908b0df if y & 1 else 0)
            i = 0
        y = w[i]
        i += 1
        y ^= y >> 11
        y ^= (y << 7) & 0x9d2c5680
        y ^= (y << 15) & 0xefc60000
        y ^= y >> 18
        yield y


def generator(C, seed, draws):
    def job():
        k = Conc(C)
        k.tag = "seed %d" % seed
        from bzsa.absint import State
        st = State()
        k.limit = 40000000
        k.e.ginitial = True
        vm = k.alloc(st, C.prog.di["buzzvm_s"]["size"])
        words = k.alloc(st, 624 * 4)
        off = {f["name"]: f["off"] for f in C.prog.di["buzzvm_s"]["fields"]}
        st.mem[addc(vm, off["rngstate"])] = (words, "ptr")
        f = C.prog.need("mt_uniform32")
        where = "%s:%s" % (f.file, f.name)

        def seeded(st):
            st, _ = k.call(st, "mt_setseed", vm, I(wrap(seed, 32)))
            ws = [st.simp(k.e.load(st, addc(words, 4 * i), "i32")) for i in range(624)]
            ix = st.simp(k.e.load(st, addc(vm, off["rngidx"]), "i32"))
            C.ob("generator", "setseed(%d)" % seed)
            if any(w.op != "i" for w in ws) or ix.op != "i":
                n = [i for i, w in enumerate(ws) if w.op != "i"]
                C.fail("generator", "mt_setseed", where, "after setseed(%d) %s not determined by the seed" % (seed, "word %d of the state is" % n[0] if n else "the position is"), ())
                return st, None
            return st, ([w.a[0] & M32 for w in ws], ix.a[0])
        st, s1 = seeded(st)
        if s1 is None:
            return
        ref = mt_ref(list(s1[0]))
        for n in range(draws):
            st, r = k.call(st, "mt_uniform32", vm)
            C.ob("generator", "draw after setseed(%d)" % seed)
            want = next(ref)
            if r.op != "i":
                C.fail("generator", "mt_uniform32", where, "draw %d after setseed(%d) is not determined by the seed" % (n + 1, seed), ())
                return
            if r.a[0] & M32 != want:
                C.fail("generator", "mt_uniform32", where, "draw %d after setseed(%d) is %d instead of %d" % (n + 1, seed, r.a[0] & M32, want), ())
                return
        # seeding again restarts the sequence
        st, s2 = seeded(st)
        if s2 != s1:
            C.fail("generator", "mt_setseed", where, "setseed(%d) leaves a different state the second time" % seed, ())
        st, _ = k.call(st, "mt_setseed", vm, I(wrap(seed ^ 0x40000, 32)))
        if [k.e.load(st, addc(words, 4 * i), "i32").a[0] & M32 for i in range(624)] == s1[0]:
            C.fail("generator", "mt_setseed", where, "different seeds give the same state", ())
        C.absorb(k.e)
    return job


def seeding(C):
    """setseed passes its argument to the generator, once"""
    N = Rng(C, 1)
    x = numarg(N, 1, "int")
    N.e.models["mt_setseed"] = N.rec("seed")
    for o in N.run("buzzmath_rng_setseed"):
        C.ob("generator", "math.rng.setseed(x)")
        k, r = N.result(o)
        ss = N.evs(o.st, "seed")
        if k != "ok" or r is not None and N.V.type_of(o.st, r) is not I(N.v.NIL) or [y[2] for y in ss] != [x]:
            C.fail("generator", "math.rng.setseed(x)", N.where, "the generator is seeded with %s (%s)" % ([show(y[2]) for y in ss], k), o.st.trail)


def run(C):
    F = {"int": "float", "float": "float"}
    for f in UN:
        unary(C, f, getattr(math, f), F, {"asin": (-1, .99), "acos": (-1, .99), "log": (.01, 9), "log2": (.01, 9), "log10": (.01, 9), "sqrt": (.01, 9)}.get(f))
    for f in RND:
        unary(C, f, {"floor": math.floor, "ceil": math.ceil, "round": lambda v: math.floor(abs(v) + .5) * (1 if v >= 0 else -1)}[f],
              {"int": "int", "float": "int"})
    unary(C, "abs", abs, {"int": "int", "float": "float"})
    atan(C)
    minmax(C, "min")
    minmax(C, "max")
    rng_args(C)
    rng_linear(C)
    rng_uniform(C)
    seeding(C)
    n = 4000 if C.tier == "thorough" else 1300
    C.parallel([generator(C, s, n) for s in (0, 1, 5489, 0xFFFFFFFF)])
    C.assume("the C library's mathematical functions are what their names say; float rounding is not examined")


MINIMA = {"arguments": 60, "values": 30, "min and max": 8, "distributions": 9, "ranges": 500, "generator": 2000}
