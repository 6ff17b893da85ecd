"""Serialization round trip. The encoder is interpreted abstractly on a symbolic value of every type (all ints, all finite floats, strings with
symbolic characters, tables, functions) behind an arbitrary prefix; the bytes it appended, kept as exact byte slices of the
value's terms, are then fed to the abstractly interpreted decoder. The decoded object must have the same tag and the
identical value term (floats: equal after cancelling the affine mantissa mapping over the reals), and the decoder must
stop exactly where the encoder stopped."""
from fractions import Fraction
from bzsa.terms import *
from bzsa.absint import Interp, INF, Budget
from bzsa.vmenv import VM, vm_models
from bzsa.vmspec import fold

W = "buzztype.c:buzzobj_serialize/buzzobj_deserialize"


class Run:
    def __init__(s, C):
        s.C = C
        s.v = C.env
        s.e = Interp(C.prog, vm_models(s.v))
        s.e.recursion = 6
        s.e.unroll_const = 1200
        s.V = VM(s.v, s.e)
        s.st = s.V.st
        s.buf = mk("buf")
        s.st.facts[s.buf] = (1, INF, frozenset())
        s.n0 = mk("n0", "buf", width="u")
        s.V.darray(s.buf, s.n0, 1)
        s.n = 0

    def obj(s, ty):
        s.n += 1
        return s.V.obj("o%d" % s.n, ty)

    def int(s, val=None):
        o = s.obj(s.v.INT)
        s.e.store(s.st, addc(o, s.v.vi), val or mk("ival", s.n, width=32), "i32")
        return o

    def float(s):
        o = s.obj(s.v.FLOAT)
        s.e.store(s.st, addc(o, s.v.vf), mk("fval", s.n), "f32")
        return o

    def string(s, n):
        o = s.obj(s.v.STRING)
        p = mk("chars", s.n)
        s.st.facts[p] = (1, INF, frozenset())
        s.e.store(s.st, addc(o, s.v.sv["str"]), p, "ptr")
        s.e.store(s.st, addc(o, s.v.sv["sid"]), mk("strid", s.n, width=16), "i16")
        if isinstance(n, int):
            for i in range(n):
                c = mk("char", s.n, i, width=8)
                s.st.facts[c] = (1, 255, frozenset())
                s.e.store(s.st, addc(p, i), c, "i8")
            s.e.store(s.st, addc(p, n), ZERO, "i8")
            s.st.ghost[("strlen", p)] = I(n)
        else:
            s.st.ghost[("strlen", p)] = n
        return o

    def table(s, items):
        o = s.obj(s.v.TABLE)
        d = mk("dictof", o)
        s.st.facts[d] = (1, INF, frozenset())
        s.e.store(s.st, addc(o, s.v.vt), d, "ptr")
        s.e.store(s.st, addc(d, s.v.DD["size"]), I(len(items)), "i32")
        s.st.ghost[("dconc", d)] = tuple((k, "ptr", x, "ptr") for k, x in items)
        return o

    def closure(s, nact=1):
        o = s.obj(s.v.CLOSURE)
        ar = mk("ar", s.n)
        s.st.facts[ar] = (1, INF, frozenset())
        s.e.store(s.st, addc(o, s.v.cl["ref"]), mk("ref", s.n, width=32), "i32")
        s.e.store(s.st, addc(o, s.v.cl["isnative"]), mk("nat", s.n, width=8), "i8")
        s.st.facts[mk("nat", s.n, width=8)] = (0, 1, frozenset())
        s.e.store(s.st, addc(o, s.v.cl["actrec"]), ar, "ptr")
        s.V.darray(ar, I(nact))
        for i in range(nact):
            s.V.arrput(ar, I(i), s.obj(s.v.NIL))
        return o

    def ser(s, o):
        s.st.facts  # state is complete
        s.pre = s.st.copy()
        outs = s.e.run(s.C.prog.need("buzzobj_serialize"), [s.buf, o], s.st)
        s.C.absorb(s.e)
        return outs

    def deser(s, st, pos):
        p = mk("outp")
        st.facts[p] = (1, INF, frozenset())
        outs = s.e.run(s.C.prog.need("buzzobj_deserialize"), [p, s.buf, pos, s.V.vm], st)
        s.C.absorb(s.e)
        return [(o.st, o.ret, o.st.simp(s.e.load(o.st, p, "ptr"))) for o in outs]


# ---- floats: affine normal form over the reals ---------------------------------------
def real(t, st):
    """{atom: coef} + const under '1', or None"""
    if t.op == "cf":
        return {"1": Fraction(t.a[0]) if "e" not in t.a[0] else Fraction(float(t.a[0]))}
    if t.op == "i":
        return {"1": Fraction(t.a[0])}
    if t.op == "lin":
        r = {"1": Fraction(t.a[0])}
        for a, k in t.a[1]:
            x = real(a, st)
            if x is None:
                return None
            for q, c in x.items():
                r[q] = r.get(q, 0) + c * k
        return clean(r)
    if t.op in ("i2f", "f2i"):
        return real(t.a[0], st)
    if t.op == "fneg":
        x = real(t.a[0], st)
        return x and {k: -c for k, c in x.items()}
    if t.op in ("fadd", "fsub"):
        x, y = real(t.a[0], st), real(t.a[1], st)
        if x is None or y is None:
            return None
        r = dict(x)
        for q, c in y.items():
            r[q] = r.get(q, 0) + (c if t.op == "fadd" else -c)
        return clean(r)
    if t.op in ("fmul", "fdiv"):
        x, y = real(t.a[0], st), real(t.a[1], st)
        if x is None or y is None:
            return None
        if t.op == "fmul" and set(x) <= {"1"}:
            x, y = y, x
        if not set(y) <= {"1"}:
            return {t: Fraction(1)}
        k = y.get("1", Fraction(0))
        if t.op == "fdiv":
            if not k:
                return None
            k = 1 / k
        return clean({q: c * k for q, c in x.items()})
    return {t: Fraction(1)}


def clean(r):
    return {k: c for k, c in r.items() if c or k == "1"}


def float_ok(st, got, x):
    """got decodes to x up to rounding of the mantissa"""
    neg = False
    m = mk("fmant", x)
    zero = mk("cf", "0")
    am = mk("call", "fabs", m)
    half = mk("cf", "0.5")
    if got is zero or got.op == "cf" and float(got.a[0]) == 0:
        # only the value zero has a mantissa below 0.5
        if st.ev(mk("flt", mk("fsub", am, half), zero)) is True or st.ev(mk("flt", am, half)) is True or \
           st.ev(fcmp("oeq", x, zero)) is True or st.ev(fcmp("oeq", m, zero)) is True:
            return None
        return "a non-zero float decodes to zero"
    while got.op == "fneg":
        neg = not neg
        got = got.a[0]
    if got.op != "call" or got.a[0] != "ldexp":
        return "decodes to %s" % show(got)
    if got.a[2] is not mk("fexp", x, width=32):
        return "decoded with exponent %s" % show(got.a[2])
    r = real(got.a[1], st)
    s = st.ev(mk("flt", x, zero))
    if s is None:
        s = st.ev(mk("flt", m, zero))
    if r == {am: Fraction(1), "1": Fraction(0)}:
        if s is None or s != neg:
            return "the sign is lost"
        return None
    if r == {m: Fraction(1), "1": Fraction(0)} and not neg:
        return None
    return "decoded mantissa %s is not the encoded one" % ({show(k) if isinstance(k, T) else k: str(c) for k, c in (r or {}).items()},)


def same(R, st, a, b, path="value"):
    """message when object b (decoded) differs from a (encoded)"""
    v, e, V = R.v, R.e, R.V
    ta = V.type_of(st, a)
    if ta is I(v.USERDATA) or ta is I(v.CLOSURE) and V.asize(st, e.load(st, addc(a, v.cl["actrec"]), "ptr")) is not ONE:
        ta = I(v.NIL)
    tb = V.type_of(st, b)
    if ta is not tb:
        return "%s: type tag %s decodes as %s" % (path, show(ta), show(tb))
    t = ta.a[0]
    if t == v.NIL:
        return None
    if t == v.INT:
        x, y = V.ival(st, a), V.ival(st, b)
        return None if fold(st, x) is fold(st, y) else "%s: int %s decodes as %s" % (path, show(x), show(y))
    if t == v.FLOAT:
        m = float_ok(st, V.fval(st, b), V.fval(st, a))
        return m and "%s: %s" % (path, m)
    if t == v.STRING:
        p = e.load(st, addc(a, v.sv["str"]), "ptr")
        sid = st.simp(e.load(st, addc(b, v.sv["sid"]), "i16"))
        if sid.op != "sid" or st.simp(e.load(st, addc(b, v.sv["str"]), "ptr")) is not mk("sget", sid):
            return "%s: decoded string is not the one registered with the string manager" % path
        q = sid.a[0]
        n = st.ghost[("strlen", p)].a[0]
        for i in range(n + 1):
            x = st.simp(e.load(st, addc(p, i), "i8"))
            y = st.simp(e.load(st, addc(q, i), "i8"))
            if x is not y:
                return "%s: character %d of a string of %d is %s after decoding" % (path, i, n, show(y))
        return None
    if t == v.CLOSURE:
        for f, ty in (("ref", "i32"), ("isnative", "i8")):
            x, y = st.simp(e.load(st, addc(a, v.cl[f]), ty)), st.simp(e.load(st, addc(b, v.cl[f]), ty))
            if fold(st, x) is not fold(st, y):
                return "%s: %s of a function is %s after decoding" % (path, f, show(y))
        ar = st.simp(e.load(st, addc(b, v.cl["actrec"]), "ptr"))
        n = V.asize(st, ar)
        if n is not ONE or V.type_of(st, V.aget(st, ar, ZERO)) is not I(v.NIL):
            return "%s: a decoded function must have a nil self" % path
        return None
    if t == v.TABLE:
        d = st.simp(e.load(st, addc(b, v.vt), "ptr"))
        want = [x for x in st.ghost[("dconc", e.load(st, addc(a, v.vt), "ptr"))]]
        sets = [x for x in st.events if x[0] in ("dset", "dremove") and x[1] is d]
        want = [(k, x) for k, _, x, _ in want if not unser(R, st, x)]
        if len(sets) != len(want) or any(x[0] != "dset" for x in sets):
            return "%s: a table of %d serializable entries decodes to %d" % (path, len(want), len(sets))
        for (k, x), s0 in zip(want, sets):
            m = same(R, st, k, s0[2], path + ".key") or same(R, st, x, s0[3], path + ".element")
            if m:
                return m
        return None


def unser(R, st, x):
    t = R.V.type_of(st, x).a[0]
    return t in (R.v.NIL, R.v.USERDATA) or t == R.v.CLOSURE and R.V.asize(st, R.e.load(st, addc(x, R.v.cl["actrec"]), "ptr")) is not ONE


def cases(C):
    v = C.env
    yield "nil", lambda R: R.obj(v.NIL)
    yield "int", lambda R: R.int()
    yield "float", lambda R: R.float()
    for n in (0, 1, 2, 5, 300):
        yield "string of %d characters" % n, lambda R, n=n: R.string(n)
    yield "function", lambda R: R.closure()
    yield "function with captured symbols", lambda R: R.closure(3)
    yield "userdata", lambda R: R.obj(v.USERDATA)
    yield "empty table", lambda R: R.table([])
    yield "table {int: int}", lambda R: R.table([(R.int(), R.int())])
    yield "table {string: float, int: string, float: function}", lambda R: R.table(
        [(R.string(2), R.float()), (R.int(), R.string(1)), (R.float(), R.closure())])
    yield "nested tables", lambda R: R.table([(R.int(), R.table([(R.string(1), R.int())])), (R.string(3), R.table([]))])
    yield "table with values that cannot be sent", lambda R: R.table(
        [(R.int(), R.obj(v.USERDATA)), (R.string(1), R.closure(2)), (R.int(), R.int())])


def run(C):
    for name, mkobj in cases(C):
        R = Run(C)
        o = mkobj(R)
        n = 0
        for out in R.ser(o):
            st = out.st
            sz = R.V.asize(st, R.buf)
            if sub(sz, R.n0).op != "i":
                C.fail("round-trip", name, W, "the number of appended bytes is not determined by the value (%s)" % show(sz), st.trail)
                continue
            if any(x[0] in ("da_set", "da_insert", "da_remove") and x[1] is R.buf for x in st.events):
                C.fail("round-trip", name, W, "the encoder modifies bytes already in the buffer", st.trail)
            # something follows in the same message
            R2 = st.copy()
            extra = 0
            for s2, ret, b in R.deser(R2, R.n0):
                n += 1
                C.ob("round-trip", name)
                if ret is not sz:
                    C.fail("round-trip", name, W, "the decoder stops at %s although the value ends at %s" % (show(ret), show(sz)), s2.trail)
                    continue
                m = same(R, s2, o, b)
                if m:
                    C.fail("round-trip", name, W, m, s2.trail)
                s2ev = [x for x in s2.events[len(st.events):] if x[0] in ("da_push", "da_pop") and x[1] is R.buf]
                if s2ev:
                    C.fail("round-trip", name, W, "decoding modifies the message", s2.trail)
        if not n:
            C.fail("round-trip", name, W, "no path encodes and decodes the value", ())
    # primitives
    for w in (8, 16, 32):
        R = Run(C)
        x = mk("prim", w, width=w)
        outs = R.e.run(C.prog.need("buzzmsg_serialize_u%d" % w), [R.buf, x], R.st)
        k = 0
        for o in outs:
            sz = R.V.asize(o.st, R.buf)
            p = mk("outp")
            o.st.facts[p] = (1, INF, frozenset())
            for o2 in R.e.run(C.prog.need("buzzmsg_deserialize_u%d" % w), [p, R.buf, R.n0], o.st.copy()):
                C.ob("round-trip", "u%d" % w)
                k += 1
                y = o2.st.simp(R.e.load(o2.st, p, "i%d" % w))
                if o2.ret is not sz or sub(sz, R.n0) is not I(w // 8) or y is not x:
                    C.fail("round-trip", "u%d" % w, "buzzmsg.c", "decodes to %s at %s, %s bytes long" % (show(y), show(o2.ret), show(sub(sz, R.n0))), o2.st.trail)
            # network byte order: most significant byte first
            for j in range(w // 8):
                b = o.st.simp(R.e.load(o.st, add(mk("dadata", R.buf), addc(R.n0, j)), "i8"))
                C.ob("byte-order", "u%d byte %d" % (w, j))
                if b is not byte(x, w // 8 - 1 - j):
                    C.fail("byte-order", "u%d byte %d" % (w, j), "buzzmsg.c", "byte %d of the encoding is %s" % (j, show(b)), o.st.trail)
        C.absorb(R.e)
        if not k:
            C.fail("round-trip", "u%d" % w, "buzzmsg.c", "no path", ())
    # strings of any length: the length field
    R = Run(C)
    L = mk("slen", width="u")
    R.e.unroll_const = 8
    o = R.string(L)
    p = R.e.load(R.st, addc(o, R.v.sv["str"]), "ptr")
    for out in R.e.run(C.prog.need("buzzmsg_serialize_string"), [R.buf, p], R.st):
        st = out.st
        C.ob("length-field", "string of any length")
        push = []
        for x in st.events:
            if x[0] == "da_push" and x[1] is R.buf:
                push.append(x[2])
            elif x[0] == "LOOP":
                break
        lo, hi = st.bounds(L)
        push = [fold(st, x) for x in push[:2]]
        if all(x.op == "i" for x in push):
            n = push[0].a[0] * 256 + push[1].a[0]
            ok = lo == hi == n or n == 0xFFFF and lo >= n
        else:
            ok = hi <= 0xFFFF and push == [fold(st, byte(L, 1)), fold(st, byte(L, 0))]
        if not ok:
            C.fail("length-field", "string of any length", "buzzmsg.c", "a string of %s to %s characters has the length field %s" %
                   (lo, hi, [show(x) for x in push]), st.trail)
    C.absorb(R.e)
    # tables of any size: the size field, and as many entries decoded as it says
    R = Run(C)
    o = R.obj(C.env.TABLE)
    d = mk("dictof", o)
    R.st.facts[d] = (1, INF, frozenset())
    R.e.store(R.st, addc(o, C.env.vt), d, "ptr")
    N = mk("dsize", width="u")
    R.st.assume(icmp("sle", N, I(0xFFFF)), True)
    R.e.store(R.st, addc(d, C.env.DD["size"]), N, "i32")
    R.e.models["buzzdict_foreach"] = lambda e, st, args, fn, ins: (st, None)
    k = 0
    for out in R.ser(o):
        C.ob("length-field", "table of any size")
        k += 1
        st = out.st
        push = [fold(st, x[2]) for x in st.events if x[0] == "da_push" and x[1] is R.buf]
        if push != [I(C.env.TABLE), byte(N, 1), byte(N, 0)]:
            C.fail("length-field", "table of any size", W, "the header of a table of %s entries is %s" % (show(N), [show(x) for x in push]), st.trail)
    if not k:
        C.fail("length-field", "table of any size", W, "no path encodes a table", ())
    R = Run(C)
    n = 260
    bs = [I(C.env.TABLE), I(n >> 8), I(n & 255)] + ([I(C.env.INT)] + [ZERO] * 4 + [I(C.env.NIL)]) * n
    for i, x in enumerate(bs):
        R.e.store(R.st, add(mk("dadata", R.buf), addc(R.n0, i)), x, "i8")
    R.V.size(R.buf, addc(R.n0, len(bs) + 5))
    R.e.max_steps = 1000 * n
    inst = "table of %d entries decodes" % n
    C.ob("length-field", inst)
    try:
        outs = R.deser(R.st, R.n0)
    except Budget:
        outs = []
    if not outs:
        C.fail("length-field", inst, W, "no path of the decoder stops after the number of entries in the size field", ())
    for s2, ret, b in outs:
        if ret is not addc(R.n0, len(bs)):
            C.fail("length-field", inst, W, "the decoder stops at %s" % show(ret), s2.trail)
    if C.tier == "thorough":
        C.notes.append("decoder steps for %d entries: %d" % (n, R.e.steps))
    C.assume("frexpf()/ldexpf() satisfy their C contract; floats are finite; rounding of the mantissa is not bounded")


MINIMA = {"round-trip": 18, "byte-order": 7, "length-field": 5}
