"""Exit-status analysis of the command-line tools: main() of bzzparse, bzzasm, bzzdeasm and bzzrun is interpreted with every operation it
relies on (files, system calls, assembler, parser, VM) replaced by its contract, and every outcome of every operation (success, each
kind of failure, short reads and writes) explored.  On every path the exit status must tell whether all operations succeeded, the data handed on must be
complete and in order, and a failure must be reported on the standard error stream.  All memory accesses are obligations."""
from bzsa.terms import *
from bzsa.absint import State, INF
from bzsa.fileenv import FConc
from bzsa.ir import AnalysisError

MINIMA = {"status": 60, "data": 8, "message": 30, "usage": 8, "memory": 50}
SIZE = 3


class Tool(FConc):
    def __init__(s, C, mod, argv):
        FConc.__init__(s, C)
        s.mod = C.prog.mods.get(mod)
        if s.mod is None or "main" not in s.mod.funcs:
            raise AnalysisError("main() of %s not found" % mod)
        s.main = s.mod.funcs["main"]
        s.argv = argv
        s.tag = " ".join(a.decode() for a in argv)
        m = s.e.models
        for n in dir(s):
            if n.startswith("z_"):
                m[n[2:]] = s.fork(getattr(s, n))
        for n in ("fopen", "fread", "fseek", "ftell", "rewind", "fclose"):
            m[n] = s.fork(getattr(s, "q_" + n))
        m["exit"] = s.m_exit
        s.bytes = [mk("sym", "byte", i) for i in range(SIZE)]

    def fork(s, h):
        def m(e, st, args, fn, ins):
            r = h(st, args, fn, ins)
            if r is None:
                return None
            return r if isinstance(r, list) else (st, r)
        return m

    def endless(s, st, what):
        """the path goes on after a failure, or without end"""
        s.C.fail("status", "%s: %s" % (s.tag, what), "%s:%s (main)" % (s.main.file, s.main.line), "%s goes on although %s" % (s.tag, what), st.trail)
        return None

    # ---- outcomes ---------------------------------------------------------------
    def both(s, st, op, good, bad, told=False):
        """two outcomes; a failure is recorded (told: the operation prints a message itself)"""
        r = [(st.copy(), good)]
        for b in bad if isinstance(bad, list) else [bad]:
            f = st.copy()
            f.ghost["failed"] = f.ghost.get("failed", ()) + (op,)
            if told:
                f.ghost["diag"] = f.ghost.get("diag", 0) + 1
            r.append((f, b))
        return r

    def log(s, st, *a):
        st.ghost["log"] = st.ghost.get("log", ()) + (a,)

    def path(s, st, p):
        return s.string(st, p)

    # ---- system calls ------------------------------------------------------------
    def z_open(s, st, a, fn, ins):
        n = s.path(st, a[0])
        fl = s.num(st.simp(a[1]), "flags") & 0xffff
        s.log(st, "open", n, fl)
        d = 3 + sum(1 for x in st.ghost["log"] if x[0] == "open")
        r = s.both(st, "open " + n.decode(), I(d), I(-1))
        r[0][0].ghost[("fd", d)] = n
        return r

    z_open64 = z_open

    def fd(s, st, t, fn, ins):
        d = s.num(st.simp(t), "a file descriptor")
        n = st.ghost.get(("fd", d))
        if n is None:
            s.bad(st, fn, ins, "use of a file descriptor that is not open")
        return d, n

    def z_write(s, st, a, fn, ins):
        d, f = s.fd(st, a[0], fn, ins)
        if "write" in st.ghost.get("failed", ()):
            return s.endless(st, "write() failed")
        if sum(x[0] == "byte" for x in st.ghost.get("log", ())) > SIZE:
            return s.endless(st, "everything is written")
        n = s.num(st.simp(a[2]), "a size")
        if n:
            s.access(st, a[1], n, fn, ins, "write")
        p = st.simp(a[1])
        r = []
        for k in sorted({n, min(1, n)}, reverse=True):
            g = st.copy()
            for i in range(k):
                s.log(g, "byte", f, g.simp(s.e.load(g, addc(p, i), "i8")))
            r.append((g, I(k)))
        r += s.both(st, "write", ZERO, I(-1))[1:]
        return r

    def z_read(s, st, a, fn, ins):
        d, f = s.fd(st, a[0], fn, ins)
        if "read" in st.ghost.get("failed", ()):
            return s.endless(st, "read() failed")
        n = s.num(st.simp(a[2]), "a size")
        if n:
            s.access(st, a[1], n, fn, ins, "read")
        p = st.simp(a[1])
        at = st.ghost.get(("at", d), 0)
        r = []
        for k in sorted({min(n, SIZE - at), min(1, n, SIZE - at)}, reverse=True):
            g = st.copy()
            for i in range(k):
                g.mem[addc(p, i)] = (s.bytes[at + i], "i8")
            g.ghost[("at", d)] = at + k
            r.append((g, I(k)))
        r += s.both(st, "read", ZERO, [I(-1), ZERO])[1:]
        return r

    def z_lseek(s, st, a, fn, ins):
        d, f = s.fd(st, a[0], fn, ins)
        o, w = s.num(st.simp(a[1]), "an offset"), s.num(st.simp(a[2]), "an offset")
        at = o + (SIZE if w == 2 else st.ghost.get(("at", d), 0) if w == 1 else 0)
        st.ghost[("at", d)] = at
        return I(at)

    z_lseek64 = z_lseek

    def z_close(s, st, a, fn, ins):
        d, f = s.fd(st, a[0], fn, ins)
        st.ghost[("fd", d)] = None
        return ZERO

    def z_unlink(s, st, a, fn, ins):
        return ZERO

    z_remove = z_unlink

    # ---- streams -------------------------------------------------------------------
    def q_fopen(s, st, a, fn, ins):
        n = s.path(st, a[0])
        s.log(st, "fopen", n, s.path(st, a[1]))
        t = mk("sym", "FILE", n)
        st.facts[t] = (1, INF, frozenset())
        r = s.both(st, "fopen " + n.decode(), t, ZERO)
        r[0][0].ghost[("fh", t)] = {"name": n, "at": 0}
        return r

    def q_fseek(s, st, a, fn, ins):
        h = s.h(st, a[0], fn, ins)
        o, w = s.num(st.simp(a[1]), "an offset"), s.num(st.simp(a[2]), "an offset")
        if h:
            st.ghost[("fh", st.simp(a[0]))] = dict(h, at=o + (SIZE if w == 2 else h["at"] if w == 1 else 0))
        return ZERO

    def q_rewind(s, st, a, fn, ins):
        h = s.h(st, a[0], fn, ins)
        if h:
            st.ghost[("fh", st.simp(a[0]))] = dict(h, at=0)
        return ZERO

    def q_ftell(s, st, a, fn, ins):
        h = s.h(st, a[0], fn, ins)
        return I(h["at"] if h else -1)

    def q_fread(s, st, a, fn, ins):
        h = s.h(st, a[3], fn, ins)
        z, n = s.num(st.simp(a[1]), "a size"), s.num(st.simp(a[2]), "a count")
        if z * n:
            s.access(st, a[0], z * n, fn, ins, "fread")
        p = st.simp(a[0])
        k = min(z * n, SIZE - h["at"])
        r = s.both(st, "fread", I(k // z if z else 0), [I(c) for c in range(n)])
        g = r[0][0]
        for i in range(k):
            g.mem[addc(p, i)] = (s.bytes[h["at"] + i], "i8")
        g.ghost[("fh", st.simp(a[3]))] = dict(h, at=h["at"] + k)
        return r

    def q_fclose(s, st, a, fn, ins):
        s.h(st, a[0], fn, ins)
        st.ghost[("fh", st.simp(a[0]))] = None
        return ZERO

    # ---- the libraries ---------------------------------------------------------------
    def handle(s, st, n):
        if n == "dbg":
            return s.dbg
        t = mk("sym", "handle", n)
        st.facts[t] = (1, INF, frozenset())
        return t

    def complete(s, st, p, n):
        """the bytes of the program, all of them"""
        p = st.simp(p)
        return n == SIZE and [st.simp(s.e.load(st, addc(p, i), "i8")) for i in range(n)] == s.bytes

    def z_buzz_asm(s, st, a, fn, ins):
        s.log(st, "asm", s.path(st, a[0]))
        r = s.both(st, "buzz_asm", ZERO, [I(1), I(2)], True)
        g = r[0][0]
        b = s.alloc(g, SIZE)
        for i in range(SIZE):
            g.mem[addc(b, i)] = (s.bytes[i], "i8")
        g.mem[g.simp(a[1])] = (b, "ptr")
        g.mem[g.simp(a[2])] = (I(SIZE), "i32")
        g.mem[g.simp(a[3])] = (s.handle(g, "dbg"), "ptr")
        return r

    def z_buzz_deasm(s, st, a, fn, ins):
        s.log(st, "deasm", s.path(st, a[3]), s.complete(st, a[0], s.num(st.simp(a[1]), "a size")), st.simp(a[2]) is s.handle(st, "dbg"))
        return s.both(st, "buzz_deasm", ZERO, [I(1), I(2)], True)

    def z_buzzdebug_new(s, st, a, fn, ins):
        return s.handle(st, "dbg")

    def z_buzzdebug_destroy(s, st, a, fn, ins):
        return ZERO

    def z_buzzdebug_tofile(s, st, a, fn, ins):
        s.log(st, "tofile", s.path(st, a[0]), st.simp(a[1]) is s.handle(st, "dbg"))
        return s.both(st, "buzzdebug_tofile", I(1), ZERO)

    def z_buzzdebug_fromfile(s, st, a, fn, ins):
        s.log(st, "fromfile", s.path(st, a[1]), st.simp(a[0]) is s.handle(st, "dbg"))
        return s.both(st, "buzzdebug_fromfile", I(1), ZERO)

    def z_buzzparser_new(s, st, a, fn, ins):
        s.log(st, "parser", s.num(st.simp(a[0]), "argc"))
        return s.both(st, "buzzparser_new", s.handle(st, "parser"), ZERO, True)

    def z_buzzparser_parse(s, st, a, fn, ins):
        s.log(st, "parse", st.simp(a[0]) is s.handle(st, "parser"))
        return s.both(st, "buzzparser_parse", I(1), ZERO, True)

    def z_buzzparser_destroy(s, st, a, fn, ins):
        return ZERO

    # ---- the virtual machine -----------------------------------------------------------
    def vmf(s, f):
        return s.C.prog.off("buzzvm_s", f)

    def z_buzzvm_new(s, st, a, fn, ins):
        vm = s.alloc(st, s.C.prog.di["buzzvm_s"]["size"], True)
        st.ghost["vm"] = vm
        st.mem[addc(vm, s.vmf("state"))] = (I(s.C.prog.enum("BUZZVM_STATE_NOCODE")), "i32")
        st.mem[addc(vm, s.vmf("oldpc"))] = (mk("sym", "oldpc"), "i32")
        st.mem[addc(vm, s.vmf("pc"))] = (mk("sym", "pc"), "i32")
        st.mem[addc(vm, s.vmf("errormsg"))] = (mk("str", b"what happened"), "ptr")
        return vm

    def setstate(s, st, n):
        v = s.C.prog.enum("BUZZVM_STATE_" + n)
        st.mem[addc(st.ghost["vm"], s.vmf("state"))] = (I(v), "i32")
        return I(v)

    def z_buzzvm_set_bcode(s, st, a, fn, ins):
        s.log(st, "bcode", s.complete(st, a[1], s.num(st.simp(a[2]), "a size")))
        g = st.copy()
        f = st.copy()
        f.ghost["failed"] = f.ghost.get("failed", ()) + ("buzzvm_set_bcode",)
        return [(g, s.setstate(g, "READY")), (f, s.setstate(f, "ERROR"))]

    def state(s, st):
        return s.num(st.simp(s.e.load(st, addc(st.ghost["vm"], s.vmf("state")), "i32")), "the VM state")

    def z_buzzvm_step(s, st, a, fn, ins):
        now = s.state(st)
        if now != s.C.prog.enum("BUZZVM_STATE_READY"):
            return I(now)
        n = st.ghost.get("steps", 0) + 1
        r = []
        for x in ("READY", "DONE", "ERROR", "STOPPED") if n < 3 else ("DONE", "ERROR"):
            g = st.copy()
            g.ghost["steps"] = n
            if x in ("ERROR", "STOPPED"):
                g.ghost["failed"] = g.ghost.get("failed", ()) + ("the program",)
            if x == "DONE":
                g.ghost["done"] = True
            r.append((g, s.setstate(g, x)))
        return r

    def z_buzzvm_string_register(s, st, a, fn, ins):
        s.log(st, "string", s.path(st, a[1]))
        return mk("sym", "sid", s.path(st, a[1]))

    z_buzzstrman_register = z_buzzvm_string_register

    def z_buzzvm_function_register(s, st, a, fn, ins):
        return mk("sym", "fid", show(st.simp(a[1])))

    def z_buzzvm_pushs(s, st, a, fn, ins):
        s.log(st, "pushs", show(st.simp(a[1])))
        return I(s.state(st))

    def z_buzzvm_pushcc(s, st, a, fn, ins):
        s.log(st, "pushcc", show(st.simp(a[1])))
        return I(s.state(st))

    z_buzzvm_pushc = z_buzzvm_pushcc

    def z_buzzvm_gstore(s, st, a, fn, ins):
        s.log(st, "gstore")
        return I(s.state(st))

    def z_buzzvm_destroy(s, st, a, fn, ins):
        return ZERO

    def z_buzzdebug_stack_dump(s, st, a, fn, ins):
        return ZERO

    def z_buzzdict_rawget(s, st, a, fn, ins):
        g = st.copy()
        e = s.alloc(g, s.C.prog.di["buzzdebug_entry_s"]["size"])
        for f, v, ty in (("line", I(7), "i64"), ("col", I(8), "i64"), ("fname", mk("str", b"x.bzz"), "ptr")):
            g.mem[addc(e, s.C.prog.off("buzzdebug_entry_s", f))] = (v, ty)
        p = s.local(g, "ptr", e)
        return [(g, p), (st.copy(), ZERO)]

    def z_perror(s, st, a, fn, ins):
        st.ghost["diag"] = st.ghost.get("diag", 0) + 1
        return ZERO

    # ---- running ------------------------------------------------------------------------
    def run(s):
        st = State()
        v = s.alloc(st, 8 * (len(s.argv) + 1))
        for i, x in enumerate(s.argv):
            st.mem[addc(v, 8 * i)] = (s.newstr(st, x), "ptr")
        st.mem[addc(v, 8 * len(s.argv))] = (ZERO, "ptr")
        dbg = s.dbg = s.alloc(st, s.C.prog.di["buzzdebug_s"]["size"])
        off = s.C.prog.off("buzzdebug_s", "off2script")
        st.mem[addc(dbg, off)] = (s.handle(st, "off2script"), "ptr")
        s.e.exits = []
        outs = [(o.st, o.st.simp(o.ret)) for o in s.e.run(s.main, [I(len(s.argv)), v], st)]
        outs += [(x[0], x[0].ghost["exit"][1]) for x in s.e.exits]
        s.C.absorb(s.e)
        r = []
        for st, rc in outs:
            n = s.num(rc, "the exit status")
            r.append((st, n & 255, st.ghost.get("failed", ()), st.ghost.get("log", ()), st.ghost.get("diag", 0)))
        return r

    def site(s):
        return "%s:%s (main)" % (s.main.file, s.main.line)


def run(C):
    C.assume("memory allocation succeeds; closing a file that was only read, and close(), succeed; write() never accepts zero bytes")
    usage(C)
    parse(C)
    asm(C)
    deasm(C)
    bzzrun(C)


def judge(C, T, goal, ok_failures=()):
    """goal(log, state): what is wrong with the operations of a run that succeeded, or None"""
    for i, (st, rc, failed, log, diag) in enumerate(T.run()):
        bad = [f for f in failed if f not in ok_failures]
        inst = "%s: %s" % (T.tag, ", ".join(failed) + " fails" if failed else "all operations succeed")
        C.ob("status", "%s (path %d)" % (inst, i))
        if bad and rc == 0:
            C.fail("status", inst, T.site(), "%s reports success although %s failed" % (T.tag, bad[0]), st.trail)
        elif not bad and rc != 0:
            C.fail("status", inst, T.site(), "%s reports failure (%d) although nothing failed" % (T.tag, rc), st.trail)
        if bad:
            C.ob("message", inst)
            if not diag:
                C.fail("message", inst, T.site(), "%s says nothing although %s failed" % (T.tag, bad[0]), st.trail)
        elif rc == 0:
            C.ob("data", "%s (path %d)" % (inst, i))
            w = goal(log, st)
            if w:
                C.fail("data", "%s %s" % (inst, w[:40]), T.site(), "%s: %s" % (T.tag, w), st.trail)


def usage(C):
    for mod, name, args in (("buzzparse.c", "bzzparse", ([], ["a"], ["a", "b", "c", "d"])), ("buzzasm_main.c", "bzzasm", ([], ["a"], ["a", "b"], ["a", "b", "c", "d"])),
                            ("buzzdeasm_main.c", "bzzdeasm", ([], ["a"], ["a", "b"], ["a", "b", "c", "d"])), ("buzzrun.c", "bzzrun", ([], ["a"], ["a", "b", "c", "d"], ["--no", "b", "c"]))):
        for a in args:
            T = Tool(C, mod, [x.encode() for x in [name] + a])
            for st, rc, failed, log, diag in T.run():
                C.ob("usage", T.tag)
                if log:
                    C.fail("usage", T.tag, T.site(), "`%s` is not a valid command line, but %s is carried out" % (T.tag, log[0][0]), st.trail)
                elif not diag:
                    C.fail("usage", T.tag, T.site(), "`%s` is not a valid command line, but nothing is said about it" % T.tag, st.trail)


def parse(C):
    for a in ([b"a.bzz", b"a.basm"], [b"a.bzz", b"a.basm", b"a.bst"]):
        def goal(log, st):
            if [x for x in log if x[0] in ("parser", "parse")] != [("parser", len(a) + 1), ("parse", True)]:
                return "the script is not parsed once"
        judge(C, Tool(C, "buzzparse.c", [b"bzzparse"] + a), goal)


def asm(C):
    T = Tool(C, "buzzasm_main.c", [b"bzzasm", b"a.basm", b"a.bo", b"a.bdb"])

    def goal(log, st):
        if ("asm", b"a.basm") not in log:
            return "the first argument is not assembled"
        if ("tofile", b"a.bdb", True) not in log:
            return "the debug information is not written to the third argument"
        if not any(x[0] == "open" and x[1] == b"a.bo" and x[2] & 3 and x[2] & 0o100 and x[2] & 0o1000 for x in log) and not any(x[0] == "fopen" and x[1] == b"a.bo" and x[2][:1] == b"w" for x in log):
            return "the second argument is not created and truncated"
        if [x[1:] for x in log if x[0] == "byte"] != [(b"a.bo", y) for y in T.bytes]:
            return "the bytes written are %s instead of those of the program" % ", ".join(show(x[2]) for x in log if x[0] == "byte")
    judge(C, T, goal)


def deasm(C):
    T = Tool(C, "buzzdeasm_main.c", [b"bzzdeasm", b"a.bo", b"a.bdb", b"o.basm"])

    def goal(log, st):
        if ("fromfile", b"a.bdb", True) not in log:
            return "the debug information is not read from the second argument"
        if not any(x[0] in ("open", "fopen") and x[1] == b"a.bo" for x in log):
            return "the first argument is not read"
        if ("deasm", b"o.basm", True, True) not in log:
            return "what is disassembled is not the program and its debug information"
    judge(C, T, goal)


def bzzrun(C):
    for pre in ([], [b"--trace"]):
        T = Tool(C, "buzzrun.c", [b"bzzrun"] + pre + [b"a.bo", b"a.bdb"])

        def goal(log, st):
            if ("fromfile", b"a.bdb", True) not in log:
                return "the debug information is not read"
            if not any(x[0] in ("fopen", "open") and x[1] == b"a.bo" for x in log):
                return "the bytecode is not read from its file"
            if ("bcode", True) not in log:
                return "the program loaded is not that of the file"
            if not st.ghost.get("done"):
                return "the program is not run to its end"
            i = [n for n, x in enumerate(log) if x == ("string", b"log")]
            r = [x for x in log if x[0] in ("pushs", "pushcc", "gstore")]
            if not i or [x[0] for x in r] != ["pushs", "pushcc", "gstore"]:
                return "the function log is not registered"
        # the debug information is a help for messages only
        judge(C, T, goal, ("buzzdebug_fromfile",))
