"""String library. The whole machine is interpreted abstractly (buzzvm_new, buzzvm_set_bcode with its libraries, buzzvm_call, the string manager and
heap); each function of the string table is called by its name, as a script does, on every string of a set of boundary shapes (empty, one
character, repeated characters, long, with digits and blanks), every position inside and outside of it, every number of arguments and every
argument type. The value returned must be the definition's; a call that must fail must raise the documented error; every memory access is an
obligation, and destroying the machine afterwards must release every block."""
import re
from bzsa.terms import *
from bzsa.vmconc import VMC, f32

S = [b"", b"a", b"ab", b"aba", b"hello world", b"x" * 300]
NOSTR = [None, 3, 1.5, ("table", [])]


def where(C, f):
    g = C.prog.func(f) or C.prog.need("buzzstring_register")
    return "%s:%s (%s)" % (g.file, g.line, g.name)


def say(x):
    return "nil" if x is None else repr(x)[1:] if isinstance(x, bytes) else "a table" if isinstance(x, tuple) else show(x) if isinstance(x, T) else repr(x)


class Lib:
    def __init__(s, C):
        s.C = C
        s.k = VMC(C)
        s.st, s.vm = s.k.boot()
        s.f = {}

    def call(s, rule, f, args, want, err=None):
        """want: value or a predicate"""
        C, k = s.C, s.k
        k.tag = inst = "string.%s(%s)" % (f, ", ".join(map(say, args)))
        w = where(C, "buzzstring_" + f)
        C.ob(rule, inst)
        if f not in s.f:
            st = k.lookup(s.st, s.vm, "string." + f)
            s.f[f] = (st, k.top(st, s.vm))
        st, e, x = k.invoke(s.f[f][0], s.vm, ("obj", s.f[f][1]), args)
        if err:
            if e not in err:
                C.fail(rule, inst, w, "expected error %s, found %s" % ("/".join(err), e or "the value " + say(x)), ())
        elif e:
            C.fail(rule, inst, w, "unexpected error: %s" % e, ())
        elif type(x) is not type(want) or x != want:
            C.fail(rule, inst, w, "returns %s instead of %s" % (say(x), say(want)), ())
        return st


def run(C):
    L = Lib(C)
    jobs = []

    def length():
        for x in S:
            L.call("length", "length", [x], len(x))
    jobs.append(length)

    def pos(n):
        return sorted({-2147483648, -1, 0, 1, 2, n - 1, n, n + 1, 2147483647})

    def sub(x, i):
        def f():
            n = len(x)
            L.call("sub", "sub", [x, i], x[i:] if 0 <= i < n else None)
            for j in pos(n):
                L.call("sub", "sub", [x, i, j], x[i:min(j, n)] if 0 <= i < n and j >= i else None)
        return f
    jobs += [sub(x, i) for x in S for i in pos(len(x))]

    def concat():
        for x in S:
            for y in S:
                L.call("concat", "concat", [x, y], x + y)
        for x, y, z in ((b"", b"", b""), (b"a", b"", b"b"), (b"ab", b"c", b"de"), (b"x" * 70, b"y" * 70, b"z")):
            L.call("concat", "concat", [x, y, z], x + y + z)
        L.call("concat", "concat", [b"1", b"2", b"3", b"4", b"5"], b"12345")
    jobs.append(concat)

    def tostring():
        for x in (0, 1, -1, 42, 2147483647, -2147483648):
            L.call("tostring", "tostring", [x], b"%d" % x)
        for x in (0.0, 1.5, -2.25, 1000000.0, 0.1):
            L.call("tostring", "tostring", [x], b"%f" % f32(x))
        for x in (None, ("table", []), b"s"):
            st = L.k
            L.call("tostring", "tostring", [x], None)
    jobs.append(tostring)

    N = [b"0", b"7", b"42", b"-5", b"+3", b"007", b"2147483647", b"-2147483648", b"12abc", b" 12", b"3.9", b"010", b"0x1A"]
    F = [b"0", b"1.5", b"-0.25", b"2", b"+3.5", b".5", b"1e3", b"12.5xyz", b"08.5", b" 1.5", b"-7"]
    B = [b"", b"abc", b"-", b"+", b" ", b"x1"]

    def toint():
        for x in N:
            L.call("toint", "toint", [x], int(re.match(rb"\s*[-+]?\d+", x).group()))
        for x in B:
            L.call("toint", "toint", [x], None)
    jobs.append(toint)

    def tofloat():
        for x in F:
            L.call("tofloat", "tofloat", [x], f32(float(re.match(rb"\s*[-+]?(\d+\.?\d*|\.\d+)(e\d+)?", x).group())))
        for x in B:
            L.call("tofloat", "tofloat", [x], None)
    jobs.append(tofloat)

    def reclaimed():
        """strings made by these functions can be garbage-collected"""
        k = L.k
        strs = k.get(L.st, L.vm, "strings", "ptr")
        for f, a in (("sub", [b"abcdef", 1, 3]), ("concat", [b"q", b"r"]), ("tostring", [5]), ("tostring", [2.5])):
            C.ob("reclaimed", "string.%s" % f)
            k.tag = "string.%s, then pruning the strings" % f
            st, vm, e = L.st, L.vm, None
            st, e, x = k.invoke(st, vm, "string." + f, a)
            if e:
                continue
            st = k.push(st, vm, x)
            sid = st.simp(k.e.load(st, addc(k.top(st, vm), C.env.sv["sid"]), "i16"))
            st = k.call(st, "buzzvm_pop", vm)[0]
            st = k.call(st, "buzzstrman_gc_clear", strs)[0]
            st = k.call(st, "buzzstrman_gc_prune", strs)[0]
            st, r = k.call(st, "buzzstrman_get", strs, sid)
            if st.simp(r) is not ZERO:
                C.fail("reclaimed", "string.%s" % f, where(C, "buzzstring_" + f), "the string made by string.%s() is kept for ever" % f, ())
    jobs.append(reclaimed)

    def args():
        ok = {"length": (1,), "sub": (2, 3), "tostring": (1,), "toint": (1,), "tofloat": (1,), "concat": (2, 3, 4)}
        for f, ns in sorted(ok.items()):
            for n in range(5):
                if n not in ns:
                    L.call("arguments", f, [b"1"] * n, None, ("LNUM",))
            if f == "tostring":
                continue
            for b in NOSTR:
                for n in ns:
                    L.call("arguments", f, [b] + [1 if f == "sub" else b"x"] * (n - 1), None, ("TYPE",))
            if f == "concat":
                for b in NOSTR:
                    for i in range(1, 3):
                        a = [b"a", b"b", b"c"]
                        a[i] = b
                        L.call("arguments", f, a, None, ("TYPE",))
            if f == "sub":
                for b in (None, 1.5, b"1", ("table", [])):
                    L.call("arguments", f, [b"abc", b], None, ("TYPE",))
                    L.call("arguments", f, [b"abc", 1, b], None, ("TYPE",))
    jobs.append(args)

    def release():
        """everything is given back, whatever was called"""
        k = L.k
        st, vm = L.st, L.vm
        base = None
        for f, a in ((None, None), ("length", [b"abc"]), ("sub", [b"abcdef", 1, 3]), ("sub", [b"abc", 9]), ("concat", [b"q", b"r", b"s"]), ("tostring", [5]), ("tostring", [2.5]),
                     ("toint", [b"12"]), ("toint", [b"zz"]), ("tofloat", [b"1.5"])):
            s2 = st
            if f:
                s2, e, x = k.invoke(st, vm, "string." + f, a)
                if e:
                    continue
            inst = "string.%s" % f if f else "start-up"
            k.tag = inst + ", then destroying the machine"
            s2 = s2.copy()
            pv = k.local(s2, "ptr", vm)
            s2, _ = k.call(s2, "buzzvm_destroy", pv)
            n = len(k.leaks(s2))
            C.ob("release", inst)
            if base is None:
                base = n
            elif n > base:
                C.fail("release", inst, where(C, "buzzstring_" + f), "%d blocks allocated by string.%s() are never released" % (n - base, f), ())
    jobs.append(release)
    C.parallel(jobs, e=L.k.e)
    C.absorb(L.k.e)
    C.assume("strtol, strtof and asprintf behave as the C standard says; numbers beyond 32 bits are not examined")


MINIMA = {"length": 6, "sub": 300, "concat": 40, "tostring": 14, "toint": 17, "tofloat": 16, "arguments": 40, "release": 10, "reclaimed": 4, "memory": 20000}
