"""Shape environment for the container code itself.

The containers (buzzdict.c, buzzdarray.c, buzzset.c, buzzstrman.c) are interpreted for what they are, with
no model in between: sizes, positions and the outcome of key comparisons are enumerated, the stored
values are opaque symbols.  Every allocation is tracked, so that each abstract memory access, copy and free is an
obligation: the target must be a live allocation, inside its bounds, and initialised before it is used."""
from .terms import *
from .absint import Interp, State, INF, Budget
from .ir import AnalysisError

SZ = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "f32": 4, "f64": 8}


def wrap(n, w):
    """canonical form: 8/16 bits unsigned, 32/64 bits signed"""
    n &= (1 << w) - 1
    if w >= 32 and n >> (w - 1):
        n -= 1 << w
    return n


WID = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "ptr": 64}
BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "and": lambda a, b: a & b,
       "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b, "shl": lambda a, b: a << b}
CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
       "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}


class CI(Interp):
    """determined integers are computed with the exact width and signedness of the instruction"""
    conc = None
    ginitial = False         # static variables start with their initialisers

    def simple(s, fn, ins, fr, st):
        op = ins["op"]
        if op == "alloca":
            t = mk("alloca", s.site(fn, ins))
            n = ins["asz"]
            if ins.get("ops"):
                c = st.simp(s.operand(ins["ops"][0], fr, fn.mod))
                n = n * c.a[0] if c.op == "i" else None
            if n is None:
                return Interp.simple(s, fn, ins, fr, st)
            st.facts.setdefault(t, (1, INF, frozenset()))
            # re-entering: contents undefined
            for o, c in s.conc.cells(st, t, n):
                del st.mem[addc(t, o)]
            st.ghost[("asz", t)] = n
            return t
        if op == "icmp":
            a, b = (st.simp(s.operand(o, fr, fn.mod)) for o in ins["ops"])
            if a.op == "i" and b.op == "i":
                w = WID.get(ins["cty"], 64)
                p = ins["pred"]
                x, y = s.us(a.a[0], w, p), s.us(b.a[0], w, p)
                return BOOL(CMP[p.lstrip("su") if p not in ("eq", "ne") else p](x, y))
            if s.ginitial and all(x.op in ("g", "fn") or x.op == "sym" and x.a[0] in ("cb", "FILE") for x in (a, b)):
                # addresses of distinct symbols differ; any fixed order will do
                p = ins["pred"]
                return BOOL(CMP[p.lstrip("su") if p not in ("eq", "ne") else p](str((a.op, a.a)), str((b.op, b.a))))
            if s.ginitial and a.op == b.op == "new" and a.a[0][0] == b.a[0][0] == "c":
                # likewise for distinct blocks: ordered as they were allocated
                p = ins["pred"]
                return BOOL(CMP[p.lstrip("su") if p not in ("eq", "ne") else p](a.a[0][1], b.a[0][1]))
        elif op in ("zext", "sext"):
            o = ins["ops"][0]
            a = st.simp(s.operand(o, fr, fn.mod))
            w = WID.get(ins.get("fty"), None)
            if a.op == "i" and w:
                n = a.a[0] & ((1 << w) - 1)
                if op == "sext" and n >> (w - 1):
                    n -= 1 << w
                return I(wrap(n, WID[ins["ty"]]))
        elif op in BIN or op in ("udiv", "urem", "sdiv", "srem", "lshr", "ashr"):
            a, b = (st.simp(s.operand(o, fr, fn.mod)) for o in ins["ops"])
            w = WID.get(ins["ty"])
            if a.op == "i" and b.op == "i" and w and w > 1:
                x, y = a.a[0], b.a[0]
                if op in BIN:
                    return I(wrap(BIN[op](x, y), w))
                m = (1 << w) - 1
                sx, sy = ((v & m) - (1 << w) if (v & m) >> (w - 1) else v & m for v in (x, y))
                if op in ("udiv", "urem", "lshr"):
                    x, y = x & m, y & m
                    if op == "lshr":
                        return I(wrap(x >> y, w))
                    if y:
                        return I(wrap(x // y if op == "udiv" else x % y, w))
                elif op == "ashr":
                    return I(wrap(sx >> y, w))
                elif sy:
                    q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
                    return I(wrap(q if op == "sdiv" else sx - q * sy, w))
        return Interp.simple(s, fn, ins, fr, st)

    def load(s, st, addr, ty):
        v = Interp.load(s, st, addr, ty)
        if v.op == "i" and v.a[0] >= 0x80000000 and ty in ("i32", "i64"):
            return I(wrap(v.a[0], WID[ty]))         # assembled from bytes
        if s.ginitial and v.op == "ld" and v.a[1] == State().ver:
            cst, parts = lin_parts(v.a[0])
            if len(parts) == 1 and parts[0][1] == 1 and parts[0][0].op == "g":
                b = parts[0][0]
                m, g = s.const_global(s.prog.mods.get(b.a[1]) if b.a[1] else None, b.a[0])
                if g and "init" in g:
                    x = s.ginit(m, g["init"], cst, ty)
                    if x is not None:
                        return I(wrap(x.a[0], WID[ty])) if x.op == "i" and ty in WID else x
        return v

    def us(s, n, w, p):
        n &= (1 << w) - 1
        if p[0] == "s" and n >> (w - 1):
            n -= 1 << w
        return n

    def intrinsic(s, name, args, st, fn, ins):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            s.conc.copy(st, args[0], args[1], args[2], fn, ins, name.startswith("llvm.memmove"))
            return [(st, args[0])]
        if name.startswith("llvm.memset"):
            s.conc.fill(st, args[0], args[1], args[2], fn, ins)
            return [(st, None)]
        return Interp.intrinsic(s, name, args, st, fn, ins)


class Conc:
    limit = 4000000          # abstract steps of one call, far above what the longest instance needs
    most = 0
    nest = ncall = 0

    def __init__(s, C):
        s.C = C
        s.p = C.prog
        s.tag = "?"
        s.icalls = {}            # name of an abstract callback -> python handler(st, args) -> value
        e = s.e = CI(s.p, models={}, hooks={"load": s.h_load, "store": s.h_store}, max_steps=10 ** 9)
        e.conc = s
        e.unroll_const = 4000
        e.recursion = 60
        e.inline_depth = 120
        m = e.models
        m["malloc"] = s.m_malloc
        m["calloc"] = s.m_calloc
        m["realloc"] = s.m_realloc
        m["free"] = s.m_free
        m["strdup"] = s.m_strdup
        m["strcmp"] = s.m_strcmp
        m["strncmp"] = s.m_strncmp
        m["strlen"] = s.m_strlen
        m["memcpy"] = m["memmove"] = s.m_memcpy
        m["memset"] = s.m_memset
        m["*icall*"] = s.m_icall
        s.where = ""

    # ---- allocations ---------------------------------------------------------------
    def alloc(s, st, n, zero=False, what="block"):
        k = st.ghost.get("nalloc", 0)
        st.ghost["nalloc"] = k + 1
        t = mk("new", ("c", k), 0)
        st.facts[t] = (1, INF, frozenset())
        st.ghost[("size", t)] = n
        if zero:
            st.zeroed = st.zeroed | {t}
        return t

    def num(s, t, what):
        if t is TRUE or t is FALSE:
            return int(t is TRUE)
        if t.op != "i":
            raise AnalysisError("%s: %s is not determined (%s)" % (s.tag, what, show(t)))
        return t.a[0]

    def m_malloc(s, e, st, args, fn, ins):
        return st, s.alloc(st, s.num(st.simp(args[0]), "the size of an allocation"))

    def m_calloc(s, e, st, args, fn, ins):
        n = s.num(st.simp(args[0]), "the size of an allocation") * s.num(st.simp(args[1]), "the size of an allocation")
        return st, s.alloc(st, n, zero=True)

    def m_realloc(s, e, st, args, fn, ins):
        p = st.simp(args[0])
        n = s.num(st.simp(args[1]), "the size of an allocation")
        if p.op == "i" and p.a[0] == 0:
            return st, s.alloc(st, n)
        if not s.live(st, p, fn, ins, "realloc"):
            return st, s.alloc(st, n)
        t = s.alloc(st, n)
        old = st.ghost[("size", p)]
        for d, c in s.cells(st, p, min(old, n)):
            st.mem[addc(t, d)] = c
        if p in st.zeroed:
            # cells never written are still zero
            for o in range(0, min(old, n)):
                if addc(p, o) not in st.mem and not s.covered(st, addc(p, o)):
                    st.mem[addc(t, o)] = (ZERO, "i8")
        s.kill(st, p)
        return st, t

    def cells(s, st, p, n):
        """the cells that start in the n bytes from p: [(offset, cell)]"""
        if n <= len(st.mem):
            r = []
            for o in range(n):
                c = st.mem.get(addc(p, o))
                if c is not None:
                    r.append((o, c))
            return r
        r = []
        for a in st.mem:
            d = sub(a, p)
            if d.op == "i" and 0 <= d.a[0] < n:
                r.append((d.a[0], st.mem[a]))
        return r

    def covered(s, st, a):
        for d in range(1, 8):
            c = st.mem.get(addc(a, -d))
            if c is not None and SZ.get(c[1], 8) > d:
                return True
        return False

    def kill(s, st, p):
        for o, c in s.cells(st, p, st.ghost.get(("size", p)) or 0):
            del st.mem[addc(p, o)]
        st.ghost[("size", p)] = None

    def m_free(s, e, st, args, fn, ins):
        p = st.simp(args[0])
        if p.op == "i" and p.a[0] == 0:
            return st, None
        if s.live(st, p, fn, ins, "free"):
            s.kill(st, p)
        return st, None

    def live(s, st, p, fn, ins, what):
        s.C.ob("memory", "%s: %s in %s" % (s.tag, what, fn.name))
        n = st.ghost.get(("size", p))
        if n is None:
            s.bad(st, fn, ins, "%s() of %s" % (what, "memory that was already released" if ("size", p) in st.ghost else
                                               "something that is not the start of an allocation"))
            return False
        return True

    def bad(s, st, fn, ins, msg):
        s.C.fail("memory", "%s: %s" % (fn.name, msg), "%s:%s (%s)" % (fn.file, ins.get("line"), fn.name), "%s (%s)" % (msg, s.tag), st.trail)

    def leaks(s, st, keep=()):
        return [k[1] for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == "size" and v is not None and k[1] not in keep]

    # ---- accesses --------------------------------------------------------------------
    def access(s, st, a, n, fn, ins, what):
        a = st.simp(a)
        c, parts = lin_parts(a)
        if len(parts) == 1 and parts[0][1] == 1:
            b = parts[0][0]
            z = st.ghost.get(("asz", b)) if b.op == "alloca" else len(b.a[0]) + 1 if b.op == "str" else None
            if z is not None and (c < 0 or c + n > z):
                s.bad(st, fn, ins, "%s of %d byte(s) at offset %d of %s of %d" % (what, n, c, "a local variable" if b.op == "alloca" else "a string constant", z))
                return False
            if b.op in ("alloca", "g", "str", "fn"):
                return True
        else:
            b = None
            for x, k in parts:
                if x.op in ("alloca", "g"):
                    return True
        s.C.ob("memory", "%s: %s in %s" % (s.tag, what, fn.name))
        if b is None or ("size", b) not in st.ghost:
            s.bad(st, fn, ins, "%s through %s, which is not a known object" % (what, "NULL" if not parts else show(a)))
            return False
        z = st.ghost[("size", b)]
        if z is None:
            s.bad(st, fn, ins, "%s of memory that was released" % what)
            return False
        if c < 0 or c + n > z:
            s.bad(st, fn, ins, "%s of %d byte(s) at offset %d of a block of %d" % (what, n, c, z))
            return False
        return True

    def h_load(s, e, fn, ins, st, addr):
        ty = ins["ty"]
        if s.access(st, addr, SZ.get(ty, 8), fn, ins, "read"):
            a = st.simp(addr)
            b = lin_parts(a)[1]
            if len(b) == 1 and b[0][0].op in ("new", "alloca"):
                v = e.load(st, a, ty)
                if v.op == "ld" and b[0][0] in atoms(v.a[0]):
                    s.bad(st, fn, ins, "read of memory that was never initialised")

    def h_store(s, e, fn, ins, st, addr, v):
        s.access(st, addr, SZ.get(ins["vty"], 8), fn, ins, "write")

    def fill(s, st, dst, v, n, fn, ins):
        n = s.num(st.simp(n), "the length of a fill")
        if n and s.access(st, dst, n, fn, ins, "fill"):
            for k in range(n):
                st.mem[addc(st.simp(dst), k)] = (v, "i8")

    def m_memcpy(s, e, st, args, fn, ins):
        s.copy(st, args[0], args[1], args[2], fn, ins, ins["callee"][1] != "memcpy")
        return st, args[0]

    def m_memset(s, e, st, args, fn, ins):
        s.fill(st, args[0], args[1], args[2], fn, ins)
        return st, args[0]

    def copy(s, st, dst, src, n, fn, ins, mv=True):
        n = s.num(st.simp(n), "the length of a copy")
        if n == 0:
            return
        ok = s.access(st, dst, n, fn, ins, "copy to")
        ok = s.access(st, src, n, fn, ins, "copy from") and ok
        if not ok:
            return
        src, dst = st.simp(src), st.simp(dst)
        d = sub(src, dst)
        if d.op == "i" and -n < d.a[0] < n and d.a[0] and not mv:
            s.bad(st, fn, ins, "memcpy() between overlapping areas")
        moved = [(addc(dst, o), c) for o, c in s.cells(st, src, n) or s.constcells(src, n)]
        zb = lin_parts(src)[1]
        if zb and zb[0][0] in st.zeroed:
            for o in range(n):
                if addc(src, o) not in st.mem and not s.covered(st, addc(src, o)):
                    moved.append((addc(dst, o), (ZERO, "i8")))
        for o, c in s.cells(st, dst, n):
            del st.mem[addc(dst, o)]
        for k, v in moved:
            st.mem[k] = v

    def constcells(s, p, n):
        """the same for a constant that is never written"""
        off, parts = lin_parts(p)
        if len(parts) != 1 or parts[0][1] != 1:
            return []
        b = parts[0][0]
        if b.op == "str":
            return [(i - off, (I(x), "i8")) for i, x in enumerate(b.a[0] + b"\0") if off <= i < off + n]
        if b.op != "g":
            return []
        m, g = s.e.const_global(s.p.mods.get(b.a[1]) if b.a[1] else None, b.a[0])
        if not g or not g.get("const") or not g.get("init"):
            return []

        def flat(i, o, sz=0):
            if "bytes" in i:
                for j, x in enumerate(i["bytes"]):
                    yield o + j, I(x), "i8"
            elif "zero" in i:
                for j in range(i["zero"]):
                    yield o + j, ZERO, "i8"
            elif "arr" in i:
                for j, x in enumerate(i["arr"]):
                    yield from flat(x, o + j * i["elsz"], i["elsz"])
            elif "struct" in i:
                for j, x in i["struct"]:
                    yield from flat(x, o + j)
            elif "v" in i:
                v = i["v"]
                ty = "i%d" % v[2] if v[0] == "i" else {4: "f32", 8: "f64"}.get(sz) if v[0] == "f" else "ptr"
                if ty:
                    yield o, s.e.operand(v, None, m), ty
        return [(o - off, (v, ty)) for o, v, ty in flat(g["init"], 0) if off <= o < off + n]

    # ---- strings -----------------------------------------------------------------------
    def string(s, st, p):
        p = st.simp(p)
        if p.op == "str":
            return p.a[0]
        out = b""
        while True:
            v = s.e.load(st, addc(p, len(out)), "i8")
            if v.op != "i":
                b = lin_parts(p)[1]
                if v.op == "ld" and len(b) == 1 and b[0][0].op in ("new", "alloca") and b[0][0] in atoms(v.a[0]):
                    w = s.e.stack[-1] if s.e.stack else "?"
                    f = w if hasattr(w, "file") else s.p.func(str(w))
                    s.C.fail("memory", "string %s" % (f.name if f else w), "%s:%s (%s)" % ((f.file, f.line, f.name) if f else ("?", 0, w)),
                             "a string is read that was not (completely) written (%s)" % s.tag, st.trail)
                raise AnalysisError("%s: a string is not determined" % s.tag)
            if v.a[0] == 0:
                return out
            out += bytes([v.a[0]])

    def newstr(s, st, bs):
        t = s.alloc(st, len(bs) + 1)
        for i, b in enumerate(bs + b"\0"):
            st.mem[addc(t, i)] = (I(b), "i8")
        return t

    def strarg(s, st, p, fn, ins, what):
        if s.access(st, p, 1, fn, ins, what):
            return s.string(st, p)
        return None

    def m_strdup(s, e, st, args, fn, ins):
        b = s.strarg(st, args[0], fn, ins, "strdup")
        return st, s.newstr(st, b if b is not None else b"?")

    def m_strcmp(s, e, st, args, fn, ins):
        a = s.strarg(st, args[0], fn, ins, "string comparison")
        b = s.strarg(st, args[1], fn, ins, "string comparison")
        return st, I(0 if a is None or b is None else (a > b) - (a < b))

    def m_strncmp(s, e, st, args, fn, ins):
        n = s.num(st.simp(args[2]), "the length of a comparison")
        a = s.strarg(st, args[0], fn, ins, "string comparison")
        b = s.strarg(st, args[1], fn, ins, "string comparison")
        return st, I(0 if a is None or b is None else (a[:n] > b[:n]) - (a[:n] < b[:n]))

    def m_strlen(s, e, st, args, fn, ins):
        a = s.strarg(st, args[0], fn, ins, "strlen")
        return st, I(len(a) if a is not None else 0)

    # ---- callbacks -----------------------------------------------------------------------
    def m_icall(s, e, st, t, args, fn, ins):
        if t.op == "sym" and t.a[0] == "cb" and t.a[1] in s.icalls:
            r = s.icalls[t.a[1]](st, args, fn, ins)
            return st, r
        s.bad(st, fn, ins, "call through %s" % ("NULL" if t is ZERO else "a pointer that is not a function (%s)" % show(t)))
        return st, ZERO

    def cb(s, name, handler):
        s.icalls[name] = handler
        t = mk("sym", "cb", name)
        return t

    # ---- calls -----------------------------------------------------------------------------
    def call(s, st, name, *args):
        """the single outcome of a call on a determined shape: (state, value)"""
        a, r = s.trycall(st, name, *args)
        if a is None:
            f = s.p.need(name)
            s.C.fail("memory", "%s aborts" % name, "%s:%s (%s)" % (f.file, f.line, name), "%s() aborts the program (%s)" % (name, s.tag), st.trail)
            raise AnalysisError("%s() does not return (%s)" % (name, s.tag))
        return a, r

    def trycall(s, st, name, *args):
        f = s.p.need(name)
        st = st.copy()
        for a in args:
            if isinstance(a, T) and a.op == "sym" and a.a[0] == "cb":
                st.facts[a] = (1, INF, frozenset())
        k = (s.e.ctxpath if hasattr(s.e, "ctxpath") else [], s.e.stack)
        n0 = s.e.steps
        if not s.nest:
            s.e.max_steps = n0 + s.limit
        outer = k[0] if s.nest else []
        try:
            s.nest += 1
            if s.nest > 1:
                # called back from within an abstract call: keep the caller's frames apart
                s.ncall += 1
                s.e.ctxpath = list(outer) + [("callback", s.ncall)]
                s.e.stack = list(k[1])
                outs = s.e.call_fn(f, list(args), st)
            else:
                outs = s.e.run(f, list(args), st)
        except Budget:
            s.C.fail("terminates", "%s returns" % name, "%s:%s (%s)" % (f.file, f.line, name), "%s() did not return within %d abstract steps: it does not terminate (%s)" % (name, s.limit, s.tag), st.trail)
            raise AnalysisError("%s() does not terminate (%s)" % (name, s.tag))
        finally:
            s.nest -= 1
        s.most = max(s.most, s.e.steps - n0)
        s.e.ctxpath, s.e.stack = k
        if len(outs) != 1:
            if not outs:
                return None, None
            raise AnalysisError("%s: %s has %d outcomes on a determined shape%s" % (s.tag, name, len(outs), "".join("\n  " + "; ".join(map(str, o.st.trail[-6:])) for o in outs)))
        o = outs[0]
        if s.nest:
            pre = tuple(f + ":" + str(i) for f, i in s.e.ctxpath)
            n = len(pre)
            for a in [a for a in o.st.mem if s.onstack(a) and any(b.op == "alloca" and len(b.a[0]) > n + 1 and b.a[0][:n] == pre and b.a[0][n].startswith("callback:") for b in linatoms(a))]:
                del o.st.mem[a]
        else:
            for a in [a for a in o.st.mem if s.onstack(a)]:
                del o.st.mem[a]
        o.st.copies = ()
        return o.st, o.ret

    isstack = {}

    def onstack(s, a):
        r = s.isstack.get(a)
        if r is None:
            r = s.isstack[a] = any(b.op == "alloca" for b in linatoms(a))
        return r

    def local(s, st, ty, v, n=None):
        """an argument passed by address"""
        t = s.alloc(st, n or SZ[ty])
        st.mem[t] = (v, ty)
        return t
