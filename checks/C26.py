"""File library. The whole machine is interpreted abstractly over an abstract file system; each function of the io table is called by its name, as
a script does: files of every line shape (empty, blank lines, missing last newline, long lines), every open mode, every argument count and type,
called functions that succeed, fail, close the file or use another one, and failures of the underlying operations. The files' contents, the
lines passed on, the values returned and io.errno must be those of the definition; every memory access and every use of a stream is an obligation."""
import itertools
from bzsa.terms import *
from bzsa.vmconc import VMC, f32

FILES = [b"", b"\n", b"a", b"a\n", b"a\nb", b"a\n\nb\n", b"\n\n", b"one\ntwo words\nthree\n", b"x" * 200 + b"\ny\n", b"100%\n%s%n\n"]


def where(C, f):
    g = C.prog.func("buzzio_" + f) or C.prog.need("buzzio_register")
    return "%s:%s (%s)" % (g.file, g.line, g.name)


def lines(d):
    l = d.split(b"\n")
    return l[:-1] if l[-1] == b"" else l


class Io:
    def __init__(s, C, boot=None):
        s.C = C
        if boot:
            s.k, s.st, s.vm = boot
        else:
            s.k = VMC(C)
            s.st, s.vm = s.k.boot()

    def fork(s):
        r = Io(s.C, (s.k, s.st, s.vm))
        r.k.fail_at = None
        return r

    def call(s, f, *args):
        """(error, value)"""
        s.st, e, x = s.k.invoke(s.st, s.vm, "io." + f, list(args))
        return e, x

    def errno(s):
        st = s.k.lookup(s.st, s.vm, "io")
        t = s.k.top(st, s.vm)
        return s.k.field(st, s.vm, t, b"errno"), s.k.field(st, s.vm, t, b"error_message")

    def file(s, n, data):
        s.st = s.st.copy()
        s.k.addfile(s.st, n, data)

    def open(s, n, mode):
        e, x = s.call("fopen", n, mode)
        return x if e is None and isinstance(x, tuple) else None

    def handle(s, f):
        return s.k.field(s.st, s.vm, f[1], b"handle")

    def streams(s):
        return [t for t, r in s.st.ghost.items() if isinstance(t, tuple) and t[0] == "fh" and r]

    def collector(s, name="line", act=None):
        """a closure that records its argument and then acts; act(k, st, vm, n) -> None or an error to raise"""
        got = []
        k, C = s.k, s.C

        def h(st, a, fn, ins):
            vm = st.simp(a[0])
            ls = k.get(st, vm, "lsyms", "ptr")
            syms = st.simp(k.e.load(st, addc(ls, {f["name"]: f["off"] for f in C.prog.di["buzzvm_lsyms_s"]["fields"]}["syms"]), "ptr"))
            n = k.num(st.simp(k.e.load(st, addc(syms, C.env.DA["size"]), "i64")), "the argument count")
            d = st.simp(k.e.load(st, addc(syms, C.env.DA["data"]), "ptr"))
            got.append(tuple(k.val(st, k.e.load(st, addc(d, 8 * i), "ptr")) for i in range(1, n)))
            if act:
                r = act(k, st, vm, len(got))
                if r is not None:
                    s2, _ = k.call(st, "buzzvm_seterror", vm, I(r), ZERO)
                    replace(st, s2)
                    return k.get(st, vm, "state")
            s2, r = k.call(st, "buzzvm_ret0", vm)
            replace(st, s2)
            return r
        return ("fun", name, h), got


def replace(st, s2):
    """continue st as s2"""
    for a in st.__slots__:
        if hasattr(s2, a):
            setattr(st, a, getattr(s2, a))


def run(C):
    base = Io(C)
    k = base.k
    jobs = []

    def chk(rule, inst, f, cond, msg):
        C.ob(rule, inst)
        if not cond:
            C.fail(rule, inst, where(C, f), msg() if callable(msg) else msg, ())

    def opening():
        for mode, exists in itertools.product((b"r", b"w", b"a", b"w+", b"a+"), (True, False)):
            s = base.fork()
            inst = "fopen(%s) of %s file" % (mode.decode(), "an existing" if exists else "a missing")
            k.tag = inst
            if exists:
                s.file(b"/f", b"old\n")
            e, f = s.call("fopen", b"/f", mode)
            if mode == b"r" and not exists:
                chk("open", inst, "fopen", e is None and f is None, "expected nil, found %s %s" % (e, f))
                no, ms = s.errno()
                chk("errno", inst, "fopen", isinstance(no, int) and no != 0 and isinstance(ms, bytes) and ms != b"No error", "io.errno is %s (%s)" % (no, ms))
                continue
            ok = e is None and isinstance(f, tuple)
            chk("open", inst, "fopen", ok, "expected a table, found %s %s" % (e, f))
            if not ok:
                continue
            chk("open", inst, "fopen", k.field(s.st, s.vm, f[1], b"name") == b"/f", "the table's name is wrong")
            chk("errno", inst, "fopen", s.errno() == (0, b"No error"), lambda: "io.errno is %s" % (s.errno(),))
            d = k.output(s.st, b"/f")
            chk("open", inst, "fopen", d == (b"old\n" if exists and mode[:1] in (b"r", b"a") else b""), "the file's content becomes %s" % d)
            if mode != b"r":
                e, x = s.call("fwrite", f, b"new")
                d = k.output(s.st, b"/f")
                chk("write", inst + ", fwrite", "fwrite", e is None and x is None and d == (b"old\n" if exists and mode[:1] == b"a" else b"") + b"new\n", "the file's content becomes %s (%s)" % (d, e))
            else:
                e, x = s.call("fwrite", f, b"new")
                chk("errno", inst + ", fwrite", "fwrite", e is None and s.errno()[0] != 0 and k.output(s.st, b"/f") == b"old\n", "a failing write is not reported (%s)" % e)
            n = len(s.streams())
            e, x = s.call("fclose", f)
            chk("close", inst, "fclose", n == 1 and e is None and x is None and not s.streams(), "%d streams are open afterwards (%s)" % (len(s.streams()), e))
            for g, extra in (("fclose", ()), ("fsize", ()), ("fwrite", (b"x",)), ("fforeach", (s.collector()[0],))):
                q = s.fork()
                q.st = s.st
                k.tag = inst + ", fclose, " + g
                e, x = q.call(g, f, *extra)
                chk("close", inst + ", fclose, " + g, g, e == "TYPE", "a closed file is accepted (%s)" % e)
    jobs.append(opening)

    def writing():
        vals = [(b"", b""), (b"a b", b"a b"), (b"%d%s%n", b"%d%s%n"), (b"x" * 300, b"x" * 300), (0, b"0"), (-17, b"-17"), (2147483647, b"2147483647"), (1.5, b"1.500000"), (-0.25, b"-0.250000")]
        cases = [[v] for v in vals] + [[vals[1], vals[4], vals[7]], [vals[0], vals[0]], [vals[2]] * 4, [vals[3], vals[5], vals[1], vals[8], vals[2]]]
        for cs in cases:
            for others in ((), (None,), (("table", [(1, 2), (b"k", None)]),)):
                if others and cs is not cases[1]:
                    continue
                s = base.fork()
                f = s.open(b"/f", b"w")
                inst = "fwrite(%s)" % ", ".join([repr(v)[:20] for v, _ in cs] + ["other"] * len(others))
                k.tag = inst
                if f is None:
                    continue
                e, x = s.call("fwrite", f, *([v for v, _ in cs] + list(others)))
                d = k.output(s.st, b"/f")
                t = b"".join(w for _, w in cs)
                chk("write", inst, "fwrite", e is None and x is None and d is not None and d.endswith(b"\n") and d.startswith(t) and (others or d == t + b"\n"), "writes %s (%s)" % (d, e))
                chk("errno", inst, "fwrite", s.errno()[0] == 0, "io.errno is set")
                e, x = s.call("fwrite", f, b"second")
                d2 = k.output(s.st, b"/f")
                chk("write", inst + ", fwrite", "fwrite", e is None and d2 == (d or b"") + b"second\n", "the second line becomes %s" % d2)
        # a failing write
        for n in (1, 2, 3):
            s = base.fork()
            f = s.open(b"/f", b"w")
            inst = "fwrite() whose write %d fails" % n
            k.tag = inst
            s.st = s.st.copy()
            s.st.ghost[("ops", "fprintf")] = 0
            k.fail_at = ("fprintf", n)
            e, x = s.call("fwrite", f, b"a", b"b", b"c")
            k.fail_at = None
            d = k.output(s.st, b"/f")
            chk("errno", inst, "fwrite", e is None and s.errno()[0] != 0, "the failure is not reported (%s)" % e)
            chk("write", inst, "fwrite", d == b"abc"[:n - 1], "writes %s" % d)
            e, x = s.call("fsize", f)
            chk("errno", inst + ", fsize", "fsize", s.errno()[0] == 0, "a successful operation does not clear io.errno")
    jobs.append(writing)

    def reading(data):
        def f():
            want = lines(data)
            inst0 = "a file of %d bytes, lines %s" % (len(data), [x[:9] for x in want])
            s = base.fork()
            s.file(b"/f", data)
            fl = s.open(b"/f", b"r")
            if fl is None:
                return
            k.tag = inst = "fforeach over " + inst0
            c, got = s.collector("line")
            e, x = s.call("fforeach", fl, c)
            chk("lines", inst, "fforeach", e is None and x is None and got == [(w,) for w in want], lambda: "calls the function with %s (%s)" % (got, e))
            chk("errno", inst, "fforeach", s.errno()[0] == 0, "io.errno is set at the end of the file")
            # size, in the middle of reading too
            s = base.fork()
            s.file(b"/f", data)
            fl = s.open(b"/f", b"r")
            k.tag = inst = "fsize of " + inst0
            e, x = s.call("fsize", fl)
            chk("size", inst, "fsize", e is None and x == len(data), "returns %s (%s)" % (x, e))
            sizes = []

            def act(k, st, vm, n):
                s2, e, x = k.invoke(st, vm, "io.fsize", [fl])
                sizes.append(x if e is None else e)
                replace(st, s2)
            c, got = s.collector("sizing", act)
            k.tag = inst = "fforeach calling fsize over " + inst0
            e, x = s.call("fforeach", fl, c)
            chk("size", inst, "fsize", e is None and got == [(w,) for w in want] and sizes == [len(data)] * len(want), lambda: "lines %s, sizes %s (%s)" % (got, sizes, e))
            # the function fails, or closes the file, at the n-th line
            for n in range(1, min(len(want), 3) + 1):
                for what in ("fails", "closes the file", "opens and reads another file"):
                    s = base.fork()
                    s.file(b"/f", data)
                    s.file(b"/g", b"p\nq\n")
                    fl = s.open(b"/f", b"r")
                    k.tag = inst = "fforeach whose function %s at line %d of %s" % (what, n, inst0)
                    inner = []

                    def act(k, st, vm, i):
                        if i != n:
                            return None
                        if what == "fails":
                            return C.env.E["MATH"] if "MATH" in C.env.E else 3
                        if what == "closes the file":
                            s2, e, x = k.invoke(st, vm, "io.fclose", [fl])
                        else:
                            s2, e, x = k.invoke(st, vm, "io.fopen", [b"/g", b"r"])
                            q = Io(C, (k, s2, vm))
                            c2, g2 = q.collector("inner")
                            e, y = q.call("fforeach", x, c2)
                            inner.append((e, list(g2)))
                            e, y = q.call("fclose", x)
                            s2 = q.st
                        if e:
                            C.fail("lines", inst, where(C, "fforeach"), "the nested call fails: %s" % e, ())
                        replace(st, s2)
                    c, got = s.collector("acting", act)
                    e, x = s.call("fforeach", fl, c)
                    if what == "fails":
                        chk("lines", inst, "fforeach", e == ("MATH" if "MATH" in C.env.E else e) and e is not None and len(got) == n, lambda: "%d calls, error %s" % (len(got), e))
                    elif what == "closes the file":
                        chk("lines", inst, "fforeach", e is None and len(got) == n and not s.streams(), lambda: "%d calls, error %s" % (len(got), e))
                    else:
                        chk("lines", inst, "fforeach", e is None and got == [(w,) for w in want] and inner == [(None, [(b"p",), (b"q",)])], lambda: "lines %s, inner %s (%s)" % (got, inner, e))
        return f
    jobs += [reading(d) for d in FILES]

    def failing():
        for n in (1, 2):
            s = base.fork()
            s.file(b"/f", b"a\nb\nc\n")
            fl = s.open(b"/f", b"r")
            k.tag = inst = "fforeach whose read %d fails" % n
            s.st = s.st.copy()
            s.st.ghost[("ops", "getline")] = 0
            k.fail_at = ("getline", n)
            c, got = s.collector("line")
            e, x = s.call("fforeach", fl, c)
            k.fail_at = None
            chk("errno", inst, "fforeach", e is None and s.errno()[0] != 0 and len(got) == n - 1, lambda: "%d lines, io.errno %s (%s)" % (len(got), s.errno(), e))
        s = base.fork()
        e, x = s.call("fopen", b"/missing", b"r")
        s.file(b"/f", b"a")
        fl = s.open(b"/f", b"r")
        chk("errno", "fopen after a failure", "fopen", s.errno() == (0, b"No error"), "a successful operation does not clear io.errno")
    jobs.append(failing)

    def args():
        for f, ok in (("fopen", (2,)), ("fclose", (1,)), ("fsize", (1,)), ("fforeach", (2,)), ("fwrite", (2, 3, 4))):
            for n in range(5):
                if n in ok:
                    continue
                s = base.fork()
                s.file(b"/f", b"a\n")
                fl = s.open(b"/f", b"r")
                k.tag = inst = "io.%s() with %d arguments" % (f, n)
                a = ([fl] + [s.collector()[0], b"x", b"y"])[:n] if f != "fopen" else [b"/f", b"r", b"r", b"r"][:n]
                e, x = s.call(f, *a)
                chk("arguments", inst, f, e == "LNUM", "expected error LNUM, found %s" % e)
            for b in (None, 3, 1.5, b"s", ("table", []), ("table", [(b"handle", 3)])):
                s = base.fork()
                s.file(b"/f", b"a\n")
                fl = s.open(b"/f", b"r")
                c = s.collector()[0]
                good = {"fopen": [b"/f", b"r"], "fclose": [fl], "fsize": [fl], "fforeach": [fl, c], "fwrite": [fl, b"x"]}[f]
                for i in range(len(good)):
                    if f == "fwrite" and i or f == "fopen" and isinstance(b, bytes):
                        continue
                    a = list(good)
                    a[i] = b
                    q = s.fork()
                    k.tag = inst = "io.%s() with %s as argument %d" % (f, repr(b)[:24], i + 1)
                    e, x = q.call(f, *a)
                    chk("arguments", inst, f, e == "TYPE", "expected error TYPE, found %s" % e)
    jobs.append(args)

    def release():
        n0 = None
        for what in ("start-up", "reading", "failing", "writing"):
            s = base.fork()
            s.file(b"/f", b"a\nb\n")
            if what != "start-up":
                f = s.open(b"/f", b"w" if what == "writing" else b"r")
                k.tag = what + ", then destroying the machine"
                if what == "writing":
                    s.call("fwrite", f, b"x", 2)
                else:
                    c, got = s.collector("line", (lambda k, st, vm, n: 3) if what == "failing" else None)
                    s.call("fforeach", f, c)
            st = s.st.copy()
            pv = k.local(st, "ptr", s.vm)
            st, _ = k.call(st, "buzzvm_destroy", pv)
            n = len(k.leaks(st))
            chk("release", what, "fforeach", n0 is None or n <= n0, "%s blocks are never released" % (n - (n0 or 0)))
            n0 = n if n0 is None else n0
    jobs.append(release)
    C.parallel(jobs, e=k.e)
    C.absorb(k.e)
    C.assume("the C library's stream functions behave as the C standard says")


MINIMA = {"open": 20, "write": 30, "close": 40, "lines": 50, "size": 20, "errno": 40, "arguments": 40, "release": 4, "memory": 50000}
