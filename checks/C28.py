"""Abstract interpretation of the debug information module on an abstract file system: every history of up to three
annotations over a set of offsets and positions is built, queried in both directions, written, read back and queried again;
file names of boundary lengths go through the same; each failing file operation must be reported; the debugger's
run loop is interpreted against every short schedule of program counters, VM states and breakpoints.  All memory accesses and
releases are obligations."""
import itertools
from bzsa.terms import *
from bzsa.absint import State
from bzsa.fileenv import FConc

MINIMA = {"history": 400, "file": 30, "failure": 12, "breakpoint": 20, "run": 300, "memory": 5000}


def where(C, fn):
    f = C.prog.need(fn)
    return "%s:%s (%s)" % (f.file, f.line, fn)


class Dbg:
    def __init__(s, C, k=None, st=None):
        s.C = C
        s.k = k or FConc(C)
        s.st = st or State()
        s.st, d = s.k.call(s.st, "buzzdebug_new")
        s.d = s.st.simp(d)

    def set(s, off, line, col, fn):
        k = s.k
        st = s.st.copy()
        t = k.newstr(st, fn)
        s.st, _ = k.call(st, "buzzdebug_info_set", s.d, I(off), I(line), I(col), t)
        k.kill(s.st, t)         # the name is the caller's

    def off(s, o):
        k = s.k
        p = k.local(s.st, "i32", I(o))
        st, r = k.call(s.st, "buzzdict_rawget", k.e.load(s.st, addc(s.d, s.C.prog.off("buzzdebug_s", "off2script")), "ptr"), p)
        s.st = st
        k.kill(st, p)
        r = st.simp(r)
        if r is ZERO:
            return None
        e = st.simp(k.e.load(st, r, "ptr"))
        g = lambda f, ty: st.simp(k.e.load(st, addc(e, s.C.prog.off("buzzdebug_entry_s", f)), ty))
        if st.ghost.get(("size", e)) is None:
            return "a released entry"
        n = g("fname", "ptr")
        if st.ghost.get(("size", n)) is None:
            return "an entry whose file name is released"
        v = [g("line", "i64"), g("col", "i64")]
        return tuple(x.a[0] if x.op == "i" else show(x) for x in v) + (k.string(st, n),)

    def pos(s, l, c, fn):
        k = s.k
        st = s.st.copy()
        t = k.newstr(st, fn)
        st, r = k.call(st, "buzzdebug_info_get_fromscript", s.d, I(l), I(c), t)
        k.kill(st, t)
        s.st = st
        r = st.simp(r)
        if r is ZERO:
            return None
        v = st.simp(k.e.load(st, r, "i32"))
        return v.a[0] if v.op == "i" else show(v)

    def tofile(s, name):
        st, r = s.k.call(s.st, "buzzdebug_tofile", mk("str", name), s.d)
        s.st = st
        return s.k.num(st.simp(r), "the result of buzzdebug_tofile")

    def fromfile(s, name):
        st, r = s.k.call(s.st, "buzzdebug_fromfile", s.d, mk("str", name))
        s.st = st
        return s.k.num(st.simp(r), "the result of buzzdebug_fromfile")

    def destroy(s):
        p = s.k.local(s.st, "ptr", s.d)
        st, _ = s.k.call(s.st, "buzzdebug_destroy", p)
        s.st = st
        z = st.simp(s.k.e.load(st, p, "ptr"))
        s.k.kill(st, p)
        return z is ZERO


OFF = (5, 105, -1)
POS = ((1, 2, b"a"), (2, 1, b"a"), (1, 2, b"b"), (1, 3, b"a"))


def run(C):
    C.assume("files are abstract byte sequences; malloc succeeds; file names are at most 65535 characters long")
    jobs = []
    j = lambda f, *a: jobs.append(lambda: f(C, *a))
    acts = list(itertools.product(OFF[:2], POS[:3]))
    for n in (1, 2):
        for h in itertools.product(acts, repeat=n):
            j(history, h)
    h3 = [h for h in itertools.product(acts, repeat=3)]
    for h in h3[::1 if C.tier != "quick" else 2]:
        j(history, h)
    for h in ([(o, p) for o in OFF for p in POS], [(o, p) for p in POS for o in reversed(OFF)], [(o, POS[0]) for o in range(40, 0, -1)], [(o * 100, (o, 0, b"x")) for o in range(8)],
              [(i, (2 ** 33 + i, 2 ** 40, b"f%d" % (i % 3))) for i in range(12)],
              [(i, (3, i, b"a")) for i in range(110)], [(i, (i, 3, b"a")) for i in range(110)], [(i, (3, 3, b"f%d" % i)) for i in range(110)],
              [(i, (3 + i * 2 ** 32, 3, b"a")) for i in range(60)], [(i, (3, 3 + i * 2 ** 32, b"a")) for i in range(60)], []):
        j(history, h)
    for n in (0, 1, 2, 255, 256, 510, 511, 512, 513, 1023, 1024, 1025, 4096, 65534, 65535) if C.tier != "quick" else (0, 1, 511, 512, 513, 600, 1024):
        j(names, [n])
    j(names, [600, 3, 700])
    j(names, [512, 512, 511])
    for op in ("fopen", "fwrite", "fclose"):
        for n in range(1, 2 if op != "fwrite" else 11):
            j(failwrite, op, n)
    j(failread, "fopen", 1)
    j(failread, "missing", 0)
    for n in range(1, 12):
        j(failread, "fread", n)
    j(cut)
    for n in range(0, 4):
        for h in itertools.product((0, 7, -3), repeat=n):
            j(breakpoints, h)
    j(breakpoints, tuple(range(12)))
    running(C, j)
    C.parallel(jobs)


def expected(h):
    off, pos = {}, {}
    for o, p in h:
        off[o] = p
        pos[p] = min(o, pos.get(p, o))
    return off, pos


def verify(C, rule, inst, D, off, pos, h, what=""):
    for o in sorted(set(OFF) | {o for o, _ in h}):
        C.ob(rule, "%s offset %d%s" % (inst, o, what))
        g = D.off(o)
        if g != off.get(o):
            C.fail(rule, inst, where(C, "buzzdebug_info_set"), "after the annotations %s%s, offset %d is at %s instead of %s" % (inst, what, o, g, off.get(o)))
            return False
    for p in sorted(set(POS) | {p for _, p in h}):
        C.ob(rule, "%s position %s%s" % (inst, p, what))
        g = D.pos(*p)
        if g != pos.get(p):
            C.fail(rule, inst, where(C, "buzzdebug_info_set"), "after the annotations %s%s, position %s is at offset %s instead of %s" % (inst, what, p, g, pos.get(p)))
            return False
    return True


def show_h(h):
    return " ".join("%d=%d:%d:%s" % (o, l, c, f.decode()[:8]) for o, (l, c, f) in h)[:150] or "(none)"


def history(C, h):
    D = Dbg(C)
    D.k.tag = "annotations " + show_h(h)
    for o, p in h:
        D.set(o, *p)
    off, pos = expected(h)
    inst = show_h(h)
    if verify(C, "history", inst, D, off, pos, h):
        roundtrip(C, D, off, inst, h)
    C.absorb(D.k.e)


def roundtrip(C, D, off, inst, h):
    k = D.k
    C.ob("file", inst + " written")
    if D.tofile(b"x.bdb") != 1:
        C.fail("file", inst, where(C, "buzzdebug_tofile"), "the debug information %s is written, but an error is reported" % inst)
        return
    E = Dbg(C, k, D.st)
    C.ob("file", inst + " read")
    if E.fromfile(b"x.bdb") != 1:
        C.fail("file", inst, where(C, "buzzdebug_fromfile"), "the debug information %s is read back, but an error is reported" % inst)
        return
    o2, p2 = expected(sorted(off.items()))
    verify(C, "file", inst, E, o2, p2, h, " went through a file")
    C.ob("memory", inst + " released")
    fine = E.destroy()
    D.st = E.st
    fine = D.destroy() and fine
    if not fine:
        C.fail("memory", inst, where(C, "buzzdebug_destroy"), "the pointer to destroyed debug information is not cleared")
    for a in k.leaks(D.st):
        C.fail("memory", "leak", where(C, "buzzdebug_destroy"), "%d bytes are never released (annotations %s)" % (D.st.ghost[("size", a)], inst))
        return
    for n, r in D.st.ghost.items():
        if isinstance(n, tuple) and n[0] == "fh" and r:
            C.fail("memory", "open file", where(C, "buzzdebug_fromfile"), "file %s is never closed" % r["name"].decode())


def names(C, ns):
    h = [(10 * i, (1 + i, i, bytes([97 + i]) * n)) for i, n in enumerate(ns)]
    history(C, h)


def build(C, n=3):
    D = Dbg(C)
    h = [(10 * i, (i + 1, 2, b"ab")) for i in range(n)]
    for o, p in h:
        D.set(o, *p)
    return D, h


def failwrite(C, op, n):
    D, h = build(C)
    D.k.tag = "writing with a failing " + op
    D.k.fail_at = (op, n)
    r = D.tofile(b"x.bdb")
    C.absorb(D.k.e)
    if D.st.ghost.get(("ops", op), 0) < n:
        return
    C.ob("failure", "writing: %s %d fails" % (op, n))
    if r != 0:
        C.fail("failure", "writing %s %d" % (op, n), where(C, "buzzdebug_tofile"), "success is reported although %s() failed (call %d)" % (op, n))
    elif any(isinstance(x, tuple) and x[0] == "fh" and v for x, v in D.st.ghost.items()):
        C.fail("failure", "writing %s %d open" % (op, n), where(C, "buzzdebug_tofile"), "the file stays open when %s() fails" % op)


def failread(C, op, n):
    D, h = build(C)
    D.k.tag = "reading with a failing " + op
    D.tofile(b"x.bdb")
    E = Dbg(C, D.k, D.st)
    E.st.ghost = {x: v for x, v in E.st.ghost.items() if not (isinstance(x, tuple) and x[0] == "ops")}
    D.k.fail_at = (op, n)
    r = E.fromfile(b"x.bdb" if op != "missing" else b"none")
    C.absorb(D.k.e)
    if op != "missing" and E.st.ghost.get(("ops", op), 0) < n:
        return
    C.ob("failure", "reading: %s %d fails" % (op, n))
    if r != 0:
        C.fail("failure", "reading %s %d" % (op, n), where(C, "buzzdebug_fromfile"), "success is reported although %s failed (%d)" % (op, n))
    elif any(isinstance(x, tuple) and x[0] == "fh" and v for x, v in E.st.ghost.items()):
        C.fail("failure", "reading %s %d open" % (op, n), where(C, "buzzdebug_fromfile"), "the file stays open when %s() fails" % op)


def cut(C):
    """whatever the file is cut to, complete entries are loaded as they were and nothing else is"""
    D, h = build(C)
    D.tofile(b"x.bdb")
    data = D.k.output(D.st, b"x.bdb")
    off, _ = expected(h)
    for n in range(0, len(data) + 1, 1 if C.tier != "quick" else 3):
        E = Dbg(C)
        E.k.tag = "a file of %d bytes" % n
        E.k.addfile(E.st, b"y.bdb", data[:n])
        E.fromfile(b"y.bdb")
        for o in off:
            C.ob("file", "cut to %d bytes, offset %d" % (n, o))
            g = E.off(o)
            if g not in (None, off[o]) or (n == len(data) and g is None):
                C.fail("file", "cut %d" % n, where(C, "buzzdebug_fromfile"), "of a file cut to %d bytes, offset %d is read as %s instead of %s" % (n, o, g, off[o]))
                return
        C.absorb(E.k.e)


def breakpoints(C, h):
    D = Dbg(C)
    k = D.k
    k.tag = "breakpoints %s" % (h,)
    for i, o in enumerate(h):
        D.st, _ = k.call(D.st, "buzzdebug_breakpoint_set_offset", D.d, I(o))
        for q in sorted(set(h) | {0, 7, -3, 8}):
            D.st, r = k.call(D.st, "buzzdebug_breakpoint_exists", D.d, I(q))
            C.ob("breakpoint", "%s: %d" % (h[:i + 1], q))
            got = k.num(D.st.simp(r), "the result of buzzdebug_breakpoint_exists")
            if bool(got) != (q in h[:i + 1]):
                C.fail("breakpoint", "exists", where(C, "buzzdebug_breakpoint_exists"), "with breakpoints at %s, one at %d is said %sto exist" % (h[:i + 1], q, "" if got else "not "))
                return
    C.absorb(k.e)


def running(C, j):
    ST = {n: C.prog.enum("BUZZVM_STATE_" + n) for n in ("NOCODE", "READY", "DONE", "ERROR", "STOPPED")}
    # schedules: the states and program counters that successive steps lead to
    for start in ("READY", "STOPPED", "DONE", "ERROR", "NOCODE"):
        for bp in ((), (1,), (2,), (0,), (0, 1), (0, 2), (1, 2), (3,)):
            for end in ("DONE", "ERROR"):
                for stay in (0, 1):
                    j(goon, ST, start, bp, end, stay)


def goon(C, ST, start, bp, end, stay):
    """a program of three instructions at 0, 1, 2, the last of which ends in a state, leaving the counter (stay) or advancing it"""
    D = Dbg(C)
    k = D.k
    inst = "from %s, breakpoints %s, ending in %s%s" % (start, list(bp), end, " at 2" if stay else " at 3")
    k.tag = inst
    for b in bp:
        D.st, _ = k.call(D.st, "buzzdebug_breakpoint_set_offset", D.d, I(b))
    sz = C.prog.di["buzzvm_s"]["size"]
    vm = k.alloc(D.st, sz, True)
    ps, pc = addc(vm, C.prog.off("buzzvm_s", "state")), addc(vm, C.prog.off("buzzvm_s", "pc"))
    D.st.mem[ps] = (I(ST[start]), "i32")
    D.st.mem[pc] = (ZERO, "i32")

    def step(e, st, args, fn, ins):
        s0 = k.num(st.simp(e.load(st, ps, "i32")), "state")
        p0 = k.num(st.simp(e.load(st, pc, "i32")), "pc")
        if s0 == ST["READY"]:
            if p0 < 2:
                p0 += 1
            else:
                s0 = ST[end]
                p0 += 0 if stay else 1
            st.mem[ps] = (I(s0), "i32")
            st.mem[pc] = (I(p0), "i32")
        return st, I(s0)
    k.e.models["buzzvm_step"] = step
    st = D.st
    if start not in ("READY", "STOPPED"):
        want = [(ST[start], 0)] * 2
    else:
        want, p, fin = [], 0, None
        first = start == "STOPPED"
        for _ in range(4):
            while fin is None and (first or p not in bp):
                first = False
                if p == 2:
                    fin = (ST[end], 2 if stay else 3)
                else:
                    p += 1
            want.append(fin or (ST["STOPPED"], p))
            first = True
    for i, w in enumerate(want):
        st, r = k.call(st, "buzzdebug_continue", vm, D.d)
        C.ob("run", "%s, call %d" % (inst, i + 1))
        got = (k.num(st.simp(k.e.load(st, ps, "i32")), "state"), k.num(st.simp(k.e.load(st, pc, "i32")), "pc"))
        r = k.num(st.simp(r), "the result of buzzdebug_continue")
        if got != w or r != w[0]:
            N = {v: n for n, v in ST.items()}
            C.fail("run", "%s, call %d" % (inst, i + 1), where(C, "buzzdebug_continue"), "%s: call %d of buzzdebug_continue() leaves the VM %s at %d (and returns %s) instead of %s at %d" %
                   (inst, i + 1, N.get(got[0]), got[1], N.get(r), N.get(w[0]), w[1]))
            break
    C.absorb(k.e)
