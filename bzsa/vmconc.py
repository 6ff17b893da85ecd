"""The whole virtual machine, interpreted as it is: buzzvm_new(), buzzvm_set_bcode() and the registered libraries run in the abstract on
determined shapes (every allocation, access and release is an obligation), floats and user data stay symbolic where the case leaves them open.
Closures of the case under study are abstract callbacks registered as C closures."""
from .terms import *
from .absint import State
from .ir import AnalysisError
from .fileenv import FConc, cf, f32
from .conc import wrap


class Err(Exception):
    pass


class VMC(FConc):
    def __init__(s, C):
        FConc.__init__(s, C)
        s.limit = 1500000
        e = s.e
        e.ginitial = True
        m = e.models
        s.errno = mk("sym", "errno")
        m["__errno_location"] = s.wrapm(s.y_errno)
        m["gettimeofday"] = s.wrapm(s.y_time)
        m["strerror"] = s.wrapm(lambda st, a, fn, ins: s.newstr(st, b"error %d" % s.num(st.simp(a[0]), "errno")))
        m["vasprintf"] = s.wrapm(s.y_vasprintf)
        s.v = C.env
        s.off = {f["name"]: f["off"] for f in C.prog.di["buzzvm_s"]["fields"]}
        s.keep = set()

    def y_errno(s, st, a, fn, ins):
        t = st.ghost.get("errno")
        if t is None:
            t = s.local(st, "i32", ZERO)
            st.ghost["errno"] = t
            st.ghost["own"] = st.ghost.get("own", ()) + (t,)
        return t

    def y_vasprintf(s, st, a, fn, ins):
        s.e.store(st, a[0], s.newstr(st, b"message"), "ptr")
        return I(7)

    def y_time(s, st, a, fn, ins):
        s.e.store(st, a[0], I(1234567), "i64")
        s.e.store(st, addc(st.simp(a[0]), 8), I(89), "i64")
        return ZERO

    # ---- files: modes, positions and errno -------------------------------------------------
    def seterrno(s, st, n):
        s.e.store(st, s.y_errno(st, (), None, None), I(n), "i32")

    def x_fopen(s, st, a, fn, ins):
        n = s.strarg(st, a[0], fn, ins, "fopen")
        mode = s.strarg(st, a[1], fn, ins, "fopen")
        old = st.ghost.get(("file", n))
        if mode[:1] not in (b"r", b"w", b"a"):
            s.seterrno(st, 22)
            return ZERO
        t = FConc.x_fopen(s, st, a, fn, ins)
        if t is ZERO:
            s.seterrno(st, 2)
        elif mode[:1] == b"a" and old is not None:
            st.ghost[("file", n)] = old
        return t

    def emit(s, st, t, bs):
        t = st.simp(t)
        r = st.ghost[("fh", t)]
        k = ("file", r["name"])
        d = st.ghost[k]
        p = len(d) if r["mode"][:1] == b"a" else r["pos"]
        st.ghost[k] = d[:p] + bs + d[p + len(bs):]
        s.set(st, t, pos=p + len(bs))

    def writing(s, st, h, fn, ins, op, bad):
        """an output operation: fails on a file open for reading only, and sets errno when it fails"""
        r = s.h(st, h, fn, ins)
        if r and r["mode"] in (b"r", b"rb"):
            s.set(st, h, err=True)
            s.seterrno(st, 9)
            return bad
        x = op()
        if r and x is bad:
            s.seterrno(st, 28)
        return x

    def x_fprintf(s, st, a, fn, ins):
        return s.writing(st, a[0], fn, ins, lambda: FConc.x_fprintf(s, st, a, fn, ins), I(-1))

    def x_fputs(s, st, a, fn, ins):
        return s.writing(st, a[1], fn, ins, lambda: FConc.x_fputs(s, st, a, fn, ins), I(-1))

    def x_fputc(s, st, a, fn, ins):
        return s.writing(st, a[1], fn, ins, lambda: FConc.x_fputc(s, st, a, fn, ins), I(-1))

    x_putc = x_fputc

    def x_fwrite(s, st, a, fn, ins):
        return s.writing(st, a[3], fn, ins, lambda: FConc.x_fwrite(s, st, a, fn, ins), ZERO)

    def x_getline(s, st, a, fn, ins):
        f0 = s.fail_at
        x = FConc.x_getline(s, st, a, fn, ins)
        if x is I(-1) and st.ghost.get(("fh", st.simp(a[2])), {}) and st.ghost[("fh", st.simp(a[2]))]["err"]:
            s.seterrno(st, 5)
        return x

    def x_fclose(s, st, a, fn, ins):
        x = FConc.x_fclose(s, st, a, fn, ins)
        if x is not ZERO:
            s.seterrno(st, 28)
        return x

    # ---- machine ---------------------------------------------------------------------
    def boot(s, rid=7, st=None):
        E = s.C.prog.enumvals
        st = st or State()
        st, vm = s.call(st, "buzzvm_new", I(rid))
        vm = st.simp(vm)
        code = bytes([0, 0, E["BUZZVM_INSTR_NOP"], E["BUZZVM_INSTR_DONE"], E["BUZZVM_INSTR_DONE"]])
        b = s.alloc(st, len(code))
        st.ghost["own"] = st.ghost.get("own", ()) + (b,)
        for i, x in enumerate(code):
            st.mem[addc(b, i)] = (I(x), "i8")
        st, r = s.call(st, "buzzvm_set_bcode", vm, b, I(len(code)))
        return st, vm

    def get(s, st, vm, f, ty="i32"):
        return st.simp(s.e.load(st, addc(vm, s.off[f]), ty))

    def status(s, st, vm):
        """None when ready, else the name of the error"""
        x = self_ = s.get(st, vm, "state")
        if x is I(s.v.READY):
            return None
        if x is I(s.v.ERROR):
            r = s.get(st, vm, "error")
            for n, k in s.v.E.items():
                if r is I(k):
                    return n
            return "error " + show(r)
        return "state " + show(x)

    def depth(s, st, vm):
        stk = s.get(st, vm, "stack", "ptr")
        return s.num(st.simp(s.e.load(st, addc(stk, s.v.DA["size"]), "i64")), "the stack depth")

    # ---- values: python int, float term/number, bytes, None, ("obj", term) ----------------
    def push(s, st, vm, x):
        if x is None:
            return s.call(st, "buzzvm_pushnil", vm)[0]
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            return s.call(st, "buzzvm_pushi", vm, I(x))[0]
        if isinstance(x, float):
            return s.call(st, "buzzvm_pushf", vm, cf(f32(x)))[0]
        if isinstance(x, bytes):
            st = st.copy()
            t = s.newstr(st, x)
            st, sid = s.call(st, "buzzstrman_register", s.get(st, vm, "strings", "ptr"), t, ZERO)
            s.kill(st, t)
            return s.call(st, "buzzvm_pushs", vm, sid)[0]
        if isinstance(x, tuple) and x[0] == "obj":
            return s.call(st, "buzzvm_push", vm, x[1])[0]
        if isinstance(x, tuple) and x[0] == "table":
            st, o = s.call(st, "buzzheap_newobj", vm, I(s.v.TABLE))
            st = s.call(st, "buzzvm_push", vm, o)[0]
            for k, y in x[1]:
                st = s.call(st, "buzzvm_dup", vm)[0]
                st = s.push(st, vm, k)
                st = s.push(st, vm, y)
                st = s.call(st, "buzzvm_tput", vm)[0]
            return st
        if isinstance(x, tuple) and x[0] == "fun":
            t = s.cb(x[1], x[2])
            st, i = s.call(st, "buzzvm_function_register", vm, t)
            return s.call(st, "buzzvm_pushc", vm, i, ZERO)[0]
        if isinstance(x, tuple) and x[0] == "user":
            return s.call(st, "buzzvm_pushu", vm, x[1])[0]
        if isinstance(x, T):
            return s.call(st, "buzzvm_pushf", vm, x)[0]
        raise AnalysisError("cannot push %r" % (x,))

    def top(s, st, vm, i=1):
        stk = s.get(st, vm, "stack", "ptr")
        d = st.simp(s.e.load(st, addc(stk, s.v.DA["data"]), "ptr"))
        o = s.e.load(st, addc(d, 8 * (s.depth(st, vm) - i)), "ptr")
        return st.simp(o)

    def val(s, st, o):
        """the value of an object"""
        v = s.v
        o = st.simp(o)
        t = st.simp(s.e.load(st, o, "i16"))
        if t is I(v.NIL):
            return None
        if t is I(v.INT):
            x = st.simp(s.e.load(st, addc(o, v.vi), "i32"))
            if x is TRUE or x is FALSE:
                return int(x is TRUE)
            return wrap(x.a[0], 32) if x.op == "i" else x
        if t is I(v.FLOAT):
            x = st.simp(s.e.load(st, addc(o, v.vf), "f32"))
            return float(x.a[0]) if x.op == "cf" else x
        if t is I(v.STRING):
            return s.string(st, s.e.load(st, addc(o, v.sv["str"]), "ptr"))
        if t is I(v.USERDATA):
            return "user", st.simp(s.e.load(st, addc(o, v.vu), "ptr"))
        if t in (I(v.TABLE), I(v.CLOSURE)):
            return "obj", o
        raise AnalysisError("%s: an object of type %s" % (s.tag, show(t)))

    def lookup(s, st, vm, path):
        """push the value of a.b.c"""
        for i, n in enumerate(path.encode().split(b".")):
            st = s.push(st, vm, n)
            st = s.call(st, "buzzvm_tget" if i else "buzzvm_gload", vm)[0]
        return st

    def field(s, st, vm, o, k):
        """value of o[k]"""
        st = s.push(st, vm, ("obj", o))
        st = s.push(st, vm, k)
        st = s.call(st, "buzzvm_tget", vm)[0]
        x = s.val(st, s.top(st, vm))
        return x

    def invoke(s, st, vm, f, args, self_=None):
        """call a function by its name (or object), as the CALLS instruction does; returns (state, error name or None, value)"""
        d0 = s.depth(st, vm)
        if isinstance(f, str):
            st = s.lookup(st, vm, f)
            fo = s.top(st, vm)
            st = s.call(st, "buzzvm_pop", vm)[0]
        else:
            fo = f[1]
        t = st.simp(s.e.load(st, fo, "i16"))
        if t is not I(s.v.CLOSURE):
            return st, "not a function", None
        st = s.push(st, vm, self_)
        st = s.push(st, vm, ("obj", fo))
        for a in args:
            st = s.push(st, vm, a)
        st = s.push(st, vm, len(args))
        st, r = s.call(st, "buzzvm_call", vm, ZERO)
        e = s.status(st, vm)
        if e:
            return st, e, None
        n = s.depth(st, vm) - d0
        if n != 1:
            return st, "%d values left on the stack" % n, None
        x = s.val(st, s.top(st, vm))
        st = s.call(st, "buzzvm_pop", vm)[0]
        return st, None, x

    def entries(s, st, vm, o):
        """contents of a table as a list of (key, value)"""
        out = []

        def h(st, a, fn, ins):
            out.append((s.val(st, s.e.load(st, a[0], "ptr")), s.val(st, s.e.load(st, a[1], "ptr"))))
            return ZERO
        d = st.simp(s.e.load(st, addc(o, s.v.vt), "ptr"))
        s.call(st, "buzzdict_foreach", d, s.cb("entries", h), ZERO)
        return out


class Robot:
    def __init__(s, w, rid, vm):
        s.w, s.rid, s.vm = w, rid, vm
        s.funs = []

    def say(s, x):
        return "nil" if x is None else repr(x)[1:] if isinstance(x, bytes) else "a table" if isinstance(x, tuple) and x[0] in ("table", "obj") else \
            "a function" if isinstance(x, tuple) and x[0] == "fun" else "user data" if isinstance(x, tuple) and x[0] == "user" else show(x) if isinstance(x, T) else repr(x)

    def check(s, rule, inst, e, x, want, name=None):
        C = s.w.C
        C.ob(rule, inst)
        if e:
            C.fail(rule, inst, s.w.where, "unexpected error: %s" % e, ())
        elif callable(want):
            if not want(x):
                C.fail(rule, inst, s.w.where, "gives %s instead of %s" % (s.say(x), name or "a table"), ())
        elif type(x) is not type(want) or x != want:
            C.fail(rule, inst, s.w.where, "gives %s instead of %s" % (s.say(x), s.say(want)), ())
        return x

    def call(s, rule, f, args, want, name=None):
        w = s.w
        w.k.tag = inst = "robot %d: %s(%s)" % (s.rid, f, ", ".join(map(s.say, args)))
        st, e, x = w.k.invoke(w.st, s.vm, f, args)
        w.st = st
        return s.check(rule, inst, e, x, want, name)

    def method(s, rule, o, f, args, want, name=None):
        w, k = s.w, s.w.k
        k.tag = inst = "robot %d: .%s(%s)" % (s.rid, f, ", ".join(map(s.say, args)))
        if not w.table(o):
            return None
        st = k.push(w.st, s.vm, o)
        st = k.push(st, s.vm, f.encode())
        st = k.call(st, "buzzvm_tget", s.vm)[0]
        fo = k.top(st, s.vm)
        st = k.call(st, "buzzvm_pop", s.vm)[0]
        st, e, x = k.invoke(st, s.vm, ("obj", fo), args, o)
        w.st = st
        return s.check(rule, inst, e, x, want, name)

    def get(s, rule, path, want, name=None):
        w, k = s.w, s.w.k
        if isinstance(path, str):
            k.tag = inst = "robot %d: %s" % (s.rid, path)
            st = k.lookup(w.st, s.vm, path)
            x = k.val(st, k.top(st, s.vm))
            w.st = k.call(st, "buzzvm_pop", s.vm)[0]
        else:
            k.tag = inst = "robot %d: .%s" % (s.rid, name)
            x = k.field(w.st, s.vm, path[1], name.encode()) if w.table(path) else None
        return s.check(rule, inst, None, x, want, name)

    def expect(s, rule, what, got, want):
        s.w.C.ob(rule, "robot %d: %s" % (s.rid, what))
        if got != want:
            s.w.C.fail(rule, "robot %d: %s" % (s.rid, what), s.w.where, "%s instead of %s" % (got, want), ())

    def entries(s, x):
        if not s.w.table(x):
            return {}
        return dict(s.w.k.entries(s.w.st, s.vm, x[1]))

    def api(s, fn, *args):
        s.w.st, r = s.w.k.call(s.w.st, fn, s.vm, *args)
        return r

    def fun(s, name, f):
        """a function of the script: f(arguments) -> value; it may use the robot"""
        w, k, C = s.w, s.w.k, s.w.C
        name = "%d.%s" % (s.rid, name)
        s.funs.append(name)
        syms = {f["name"]: f["off"] for f in C.prog.di["buzzvm_lsyms_s"]["fields"]}["syms"]

        def h(st, a, fn, ins):
            vm = st.simp(a[0])
            ls = k.get(st, vm, "lsyms", "ptr")
            da = st.simp(k.e.load(st, addc(ls, syms), "ptr"))
            n = k.num(st.simp(k.e.load(st, addc(da, C.env.DA["size"]), "i64")), "the argument count")
            d = st.simp(k.e.load(st, addc(da, C.env.DA["data"]), "ptr"))
            av = tuple(k.val(st, k.e.load(st, addc(d, 8 * i), "ptr")) for i in range(1, n))
            old = w.st
            w.st = st.copy()
            r = f(av)
            if r is None or isinstance(r, list):
                w.st, x = k.call(w.st, "buzzvm_ret0", vm)
            else:
                w.st = k.push(w.st, vm, r)
                w.st, x = k.call(w.st, "buzzvm_ret1", vm)
            for q in st.__slots__:
                if hasattr(w.st, q):
                    setattr(st, q, getattr(w.st, q))
            w.st = old
            return x
        return ("fun", name, h)


class World:
    """several machines in one abstract memory"""

    def __init__(s, C, k, where):
        s.C, s.k, s.where = C, k, where
        s.r = {}
        s.own = set()
        from .models import LIBC, CANON, pure
        for f in ("sqrt", "exp", "log", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan2", "pow", "fabs", "floor", "ceil", "round"):
            for g in (f, f + "f"):
                k.e.models.setdefault(g, pure(f))

    def table(s, x):
        return isinstance(x, tuple) and x[0] == "obj"

    def add(s, rid, st, vm):
        s.st = st
        s.r[rid] = Robot(s, rid, vm)
        return s.r[rid]

    def messages(s, a):
        """take all queued messages of a robot as byte strings"""
        k = s.k
        out = []
        for _ in range(100):
            k.tag = "the queue of robot %d" % a.rid
            s.st, n = k.call(s.st, "buzzoutmsg_queue_size", a.vm)
            if s.st.simp(n) is ZERO:
                return out
            s.st, m = k.call(s.st, "buzzoutmsg_queue_first", a.vm)
            m = s.st.simp(m)
            sz = k.num(s.st.simp(k.e.load(s.st, addc(m, s.C.env.DA["size"]), "i64")), "a message's size")
            d = s.st.simp(k.e.load(s.st, addc(m, s.C.env.DA["data"]), "ptr"))
            out.append([s.st.simp(k.e.load(s.st, addc(d, i), "i8")) for i in range(sz)])
            # the caller owns the serialized message
            s.st = s.st.copy()
            q = k.local(s.st, "ptr", m)
            s.st = k.call(s.st, "buzzdarray_destroy", q)[0]
            s.st = s.st.copy()
            k.kill(s.st, q)
            s.st = k.call(s.st, "buzzoutmsg_queue_next", a.vm)[0]
        raise AnalysisError("%s: the queue does not empty" % k.tag)

    def drop(s, a):
        return s.messages(a)

    def give(s, b, rid, msgs):
        k = s.k
        for m in msgs:
            s.st, p = k.call(s.st, "buzzdarray_new", I(max(1, len(m))), I(1), ZERO)
            p = s.st.simp(p)
            for x in m:
                s.st = s.st.copy()
                t = k.local(s.st, "i8", x)
                s.st, n = k.call(s.st, "buzzdarray_size", p) if s.C.prog.func("buzzdarray_size") else (s.st, k.e.load(s.st, addc(p, s.C.env.DA["size"]), "i64"))
                s.st = k.call(s.st, "buzzdarray_insert", p, n, t)[0]
                s.st = s.st.copy()
                k.kill(s.st, t)
            s.st = k.call(s.st, "buzzinmsg_queue_append", b.vm, I(rid), p)[0]

    def process(s, b):
        s.k.tag = "robot %d processing its messages" % b.rid
        d = s.k.depth(s.st, b.vm)
        s.st = s.k.call(s.st, "buzzvm_process_inmsgs", b.vm)[0]
        e = s.k.status(s.st, b.vm)
        s.C.ob("delivery", "robot %d" % b.rid)
        if e:
            s.C.fail("delivery", "robot %d" % b.rid, s.where, "processing messages ends in %s" % e, ())
        elif s.k.depth(s.st, b.vm) != d:
            s.C.fail("delivery", "robot %d" % b.rid, s.where, "processing messages leaves %d values on the stack" % (s.k.depth(s.st, b.vm) - d), ())

    def deliver(s, a, b):
        s.give(b, a.rid, s.messages(a))
        s.process(b)

    def feed(s, a, b):
        """queue the messages at b without processing them"""
        s.give(b, a.rid, s.messages(a))

    def cross(s, a, b):
        """both robots' messages are on their way at the same time"""
        ma, mb = s.messages(a), s.messages(b)
        s.give(b, a.rid, ma)
        s.give(a, b.rid, mb)
        s.process(a)
        s.process(b)
