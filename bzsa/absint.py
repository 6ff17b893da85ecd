"""Forward, flow- and context-sensitive abstract interpreter over LLVM IR (SSA).

* Values: canonical linear/value-numbered terms (terms.py).
* Path facts: intervals + disequalities on canonical linear terms, truth values of float
  comparisons.  No solver; a branch is pruned only when an interval decides it.
* Memory: strong updates on canonical addresses, lazily created symbols for initial contents;
  distinct address terms are assumed not to alias (stated in DESIGN.md).
* Calls: interface functions have models (models.py), every other defined function is entered
  (so extracted helpers are transparent), libc is modelled or opaque.
* Loops: fix-point with widening at every loop head, so results cover any iteration count.
"""
from math import gcd
from .terms import *
from .ir import AnalysisError

INF = float("inf")
ISZ = {"i8": 1, "i16": 2, "i32": 4, "i64": 8}


# operators of terms that stand for the addresses of separate allocations
# (except that two given objects may well be the same one)
BASES = ("msg", "new", "obj", "alloca")


class State:
    __slots__ = ("mem", "facts", "bools", "events", "ghost", "counts", "copies", "zeroed", "ver", "trail", "dead")

    def __init__(s):
        s.mem = {}
        s.facts = {}
        s.bools = {}
        s.events = ()
        s.ghost = {}
        s.counts = {}
        s.copies = ()
        s.zeroed = frozenset()
        s.ver = None
        s.trail = ()
        s.dead = None

    def copy(s):
        n = State()
        n.mem = dict(s.mem)
        n.facts = dict(s.facts)
        n.bools = dict(s.bools)
        n.events = s.events
        n.ghost = dict(s.ghost)
        n.counts = dict(s.counts)
        n.copies = s.copies
        n.zeroed = s.zeroed
        n.ver = s.ver
        n.trail = s.trail
        return n

    def key(s):
        return (frozenset(s.mem.items()), frozenset(s.facts.items()), frozenset(s.bools.items()), s.events,
                frozenset((k, v) for k, v in s.ghost.items()), s.copies, s.ver)

    # ---- facts -------------------------------------------------------------------
    def atom_bounds(s, a):
        if a.op == "i":
            return a.a[0], a.a[0]
        lo, hi = -INF, INF
        if isbool(a):
            lo, hi = 0, 1
            v = s.ev(a)
            if v is not None:
                lo = hi = int(v)
            return lo, hi
        w = a.width
        if w in (8, 16):
            lo, hi = 0, (1 << w) - 1
        elif a.op in ("fn", "g", "str"):
            return 1, hi
        elif w == "u":
            lo = 0
        if a.op == "and" :
            for x in a.a:
                if x.op == "i" and x.a[0] >= 0:
                    lo = max(lo, 0)
                    hi = min(hi, x.a[0])
        f = s.facts.get(a)
        if f:
            lo = max(lo, f[0])
            hi = min(hi, f[1])
        return lo, hi

    def bounds(s, t):
        L, sg, c = split(t)
        if L is None:
            return c, c
        g = 1
        if L.op == "lin":
            g = L.a[1][0][1]
            for a, k in L.a[1]:
                g = gcd(g, k)
            if g > 1:
                L = mk_lin(0, {a: k // g for a, k in L.a[1]})
        if L.op != "lin":
            lo, hi = s.atom_bounds(L)
        else:
            lo = hi = 0
            for a, k in L.a[1]:
                l, h = s.atom_bounds(a)
                if k > 0:
                    lo += k * l
                    hi += k * h
                else:
                    lo += k * h
                    hi += k * l
            f = s.facts.get(L)
            if f:
                lo = max(lo, f[0])
                hi = min(hi, f[1])
            if 3 <= len(L.a[1]) <= 6:
                lo, hi = s.pairs(L, lo, hi)
        lo, hi = lo * g, hi * g
        if sg > 0:
            return lo + c, hi + c
        return c - hi, c - lo

    def pairs(s, L, lo, hi):
        """one fact about a difference of two atoms, intervals for the rest"""
        ps = L.a[1]
        for i in range(len(ps)):
            for j in range(i + 1, len(ps)):
                (a, ka), (b, kb) = ps[i], ps[j]
                if ka != -kb:
                    continue
                P, sg, c = split(mk_lin(0, {a: ka, b: kb}))
                k = 1
                if P.op == "lin":
                    k = abs(ka)
                    if k > 1:
                        P, sg, c = split(mk_lin(0, {a: ka // k, b: kb // k}))
                f = s.facts.get(P)
                if f is None:
                    continue
                l, h = (f[0] * k, f[1] * k) if sg > 0 else (-f[1] * k, -f[0] * k)
                for x in range(len(ps)):
                    if x != i and x != j:
                        q, kq = ps[x]
                        ql, qh = s.atom_bounds(q)
                        l += kq * (ql if kq > 0 else qh)
                        h += kq * (qh if kq > 0 else ql)
                lo, hi = max(lo, l), min(hi, h)
        return lo, hi

    def simp(s, t):
        """fold atoms known to be constant"""
        if t.op == "i" or t.op == "cf":
            return t
        if t.op == "lin":
            ch = None
            for a, k in t.a[1]:
                f = s.facts.get(a)
                if f and f[0] == f[1]:
                    ch = ch or {}
                    ch[a] = f[0]
                elif isbool(a):
                    v = s.ev(a)
                    if v is not None:
                        ch = ch or {}
                        ch[a] = int(v)
            if ch:
                c, p = lin_parts(t)
                d = dict(p)
                for a, v in ch.items():
                    c += d.pop(a) * v
                return mk_lin(c, d)
            return t
        f = s.facts.get(t)
        if f and f[0] == f[1]:
            return I(f[0])
        if isbool(t) and t.op != "b":
            v = s.ev(t)
            if v is not None:
                return BOOL(v)
        return t

    def consistent(s):
        """False when the recorded facts contradict each other"""
        for L, (lo, hi, ex) in s.facts.items():
            if L.op == "lin":
                l = h = 0
                for a, k in L.a[1]:
                    x, y = s.atom_bounds(a)
                    if k > 0:
                        l += k * x
                        h += k * y
                    else:
                        l += k * y
                        h += k * x
                if l > hi or h < lo or (l == h and l in ex):
                    return False
        for b, v in list(s.bools.items()):
            del s.bools[b]
            e = s.ev(b)
            s.bools[b] = v
            if e is not None and e != v:
                return False
        return True

    def ev(s, b):
        """truth value of a boolean term, or None"""
        if b.op == "b":
            return bool(b.a[0])
        if b.op == "not":
            v = s.ev(b.a[0])
            return None if v is None else not v
        if b.op == "le":
            lo, hi = s.bounds(b.a[0])
            if hi <= b.a[1]:
                return True
            if lo > b.a[1]:
                return False
            return None
        if b.op == "eq":
            lo, hi = s.bounds(b.a[0])
            c = b.a[1]
            if lo == hi == c:
                return True
            if c < lo or c > hi:
                return False
            f = s.facts.get(b.a[0])
            if f and c in f[2]:
                return False
            x = b.a[0]
            if x.op == "lin" and len(x.a[1]) == 2 and c == 0:
                (p, m), (q, n) = x.a[1]
                if {m, n} == {1, -1} and p.op in BASES and q.op in BASES and not p.op == q.op == "obj":
                    return False
            return None
        if b in s.bools:
            return s.bools[b]
        B = s.bools
        if b.op == "ult":
            x, y = b.a
            if s.bounds(x)[0] >= 0 and s.bounds(y)[0] >= 0:
                return s.ev(icmp("slt", x, y))
            if s.bounds(x)[1] < 0 and s.bounds(y)[0] >= 0:
                return False
            if s.bounds(y)[1] < 0 and s.bounds(x)[0] >= 0:
                return True
            return None
        if b.op == "flt":
            x, y = b.a
            if x is y:
                return False
            if x.op == "cf" and y.op == "cf":
                return float(x.a[0]) < float(y.a[0])
            if B.get(mk("flt", y, x)) or B.get(mk("fle", y, x)) or B.get(mk("fle", x, y)) is False:
                return False
            if B.get(fcmp("oeq", x, y)):
                return False
        elif b.op == "fle":
            x, y = b.a
            if x.op == "cf" and y.op == "cf":
                return float(x.a[0]) <= float(y.a[0])
            if B.get(mk("flt", x, y)) or B.get(fcmp("oeq", x, y)):
                return True
            if B.get(mk("flt", y, x)):
                return False
        elif b.op == "feq":
            x, y = b.a
            if x.op == "cf" and y.op == "cf":
                return float(x.a[0]) == float(y.a[0])
            if B.get(mk("flt", x, y)) or B.get(mk("flt", y, x)):
                return False
        return None

    def assume(s, b, val):
        """refine in place; False when contradictory"""
        if b.op == "not":
            return s.assume(b.a[0], not val)
        if b.op == "b":
            return bool(b.a[0]) == val
        cur = s.ev(b)
        if cur is not None:
            return cur == val
        if b.op in ("le", "eq"):
            L, c = b.a
            lo, hi, ex = s.facts.get(L, (-INF, INF, frozenset()))
            if L.op != "lin":
                l2, h2 = s.atom_bounds(L)
                lo, hi = max(lo, l2), min(hi, h2)
            if b.op == "le":
                if val:
                    hi = min(hi, c)
                else:
                    lo = max(lo, c + 1)
            else:
                if val:
                    if c in ex:
                        return False
                    lo = max(lo, c)
                    hi = min(hi, c)
                else:
                    ex = ex | {c}
            while lo in ex:
                lo += 1
            while hi in ex:
                hi -= 1
            if lo > hi:
                return False
            s.facts[L] = (lo, hi, ex)
            # trunc(w,x): value facts transfer when x fits
            if L.op == "trunc":
                pass
            return True
        if b.op == "ult":
            x, y = b.a
            if val and s.bounds(y)[0] >= 0:
                return s.assume(icmp("sge", x, ZERO), True) and s.assume(icmp("slt", x, y), True)
            if not val and s.bounds(x)[0] >= 0 and s.bounds(y)[0] >= 0:
                return s.assume(icmp("slt", x, y), False)
        s.bools[b] = val
        return True

    # ---- events ------------------------------------------------------------------
    def ev_add(s, *e):
        s.events = s.events + (e,)


def mentions_global(x, name):
    if isinstance(x, dict):
        return any(mentions_global(v, name) for v in x.values())
    if isinstance(x, (list, tuple)):
        if len(x) >= 2 and x[0] == "g" and x[1] == name:
            return True
        return any(mentions_global(v, name) for v in x)
    return False


def base_atoms(addr):
    return [a for a, k in lin_parts(addr)[1]]


def nonneg(st, x):
    """a float term known to be >= 0 (NaN excluded)"""
    if x.op == "cf":
        return float(x.a[0]) >= 0
    if st.ev(mk("flt", x, mk("cf", "0"))) is False or st.ev(mk("fle", mk("cf", "0"), x)) is True:
        return True
    if x.op in ("fmul", "fadd", "fdiv"):
        return nonneg(st, x.a[0]) and nonneg(st, x.a[1])
    if x.op == "call" and x.a[0] in ("fabs", "sqrt", "exp"):
        return True
    return False


class LoopCtx:
    __slots__ = ("head", "st", "phis", "n", "body", "und", "k")


class Outcome:
    __slots__ = ("st", "ret")

    def __init__(s, st, ret):
        s.st = st
        s.ret = ret


class Budget(AnalysisError):
    pass


class Interp:
    def __init__(s, prog, models=None, hooks=None, max_steps=2000000, inline_depth=40):
        s.prog = prog
        s.models = models or {}
        s.hooks = hooks or {}
        s.max_steps = max_steps
        s.steps = 0
        s.inline_depth = inline_depth
        s.stack = []           # active functions
        s.visited = set()      # functions entered
        s.npaths = 0
        s.opaque = set()
        s.recursion = 0        # how many nested activations of a function are entered
        s.unroll = 0           # iterations kept apart even when the exit test is undecided
        s.unroll_const = 64    # iterations kept apart while every exit test is decided
        s.extfns = set()
        s.exits = []           # (state, function that calls abort/exit, line, callee)

    # ---- memory ------------------------------------------------------------------
    def const_global(s, mod, name):
        g = mod.globals.get(name) if mod else None
        if g is None or "init" not in g:
            d = s.prog.gdefs.get(name)
            if d:
                mod, g = d
        return mod, g

    def gterm(s, mod, name):
        m, g = s.const_global(mod, name)
        if g and g.get("const") and "init" in g and g["init"] and "bytes" in g["init"] and g["local"]:
            bs = bytes(g["init"]["bytes"])
            if bs.endswith(b"\0"):
                return mk("str", bs[:-1])
        if g and g["local"]:
            return mk("g", name, m.name if m else None)
        return mk("g", name, None)

    def ginit(s, mod, init, off, ty):
        """value of a constant initialiser at byte offset"""
        if init is None:
            return None
        if "v" in init:
            return s.operand(init["v"], None, mod) if off == 0 else None
        if "zero" in init:
            return ZERO
        if "bytes" in init:
            b = init["bytes"]
            return I(b[off]) if 0 <= off < len(b) and ty == "i8" else None
        if "arr" in init:
            n = init["elsz"]
            k = off // n
            if 0 <= k < len(init["arr"]):
                return s.ginit(mod, init["arr"][k], off - k * n, ty)
            return None
        if "struct" in init:
            best = None
            for o, v in init["struct"]:
                if o <= off:
                    best = (o, v)
            if best:
                return s.ginit(mod, best[1], off - best[0], ty)
        return None

    def neverwritten(s, mod, name):
        """a static variable that the module only ever loads"""
        if mod is None or not mod.globals[name].get("local"):
            return False
        c = getattr(mod, "_nw", None)
        if c is None:
            c = mod._nw = {}
        if name not in c:
            ok = True
            for f in mod.funcs.values():
                for blk in f.blocks:
                    for ins in blk:
                        if ins["op"] == "load":
                            continue
                        if mentions_global(ins, name):
                            ok = False
            c[name] = ok
        return c[name]

    def load(s, st, addr, ty):
        addr = st.simp(addr)
        c = st.mem.get(addr)
        if c is not None:
            v, vt = c
            if vt == ty or vt is None or ty is None:
                return v
            n, m = ISZ.get(vt), ISZ.get(ty)
            if n and m and n < m:
                # assemble from the narrower cells that follow
                bs = {}
                j = 0
                while j < m:
                    q = st.mem.get(addc(addr, j)) if j else c
                    if q is None or not ISZ.get(q[1]) or j + ISZ[q[1]] > m:
                        bs = None
                        break
                    for i in range(ISZ[q[1]]):
                        bs[j + i] = byte(q[0], i)
                    j += ISZ[q[1]]
                if bs:
                    return frombytes(bs)
            return s.conv(v, vt, ty)
        if ty in ("i8", "i16", "i32"):
            # inside a wider cell
            for d in range(1, 8):
                c = st.mem.get(addc(addr, -d))
                if c is not None:
                    n = ISZ.get(c[1])
                    if n and d + ISZ[ty] <= n and not isbool(c[0]):
                        return frombytes({j: byte(c[0], d + j) for j in range(ISZ[ty])})
                    break
        cst, parts = lin_parts(addr)
        if len(parts) == 1 and parts[0][1] == 1:
            b = parts[0][0]
            if b.op == "str" and ty == "i8":
                bs = b.a[0] + b"\0"
                if 0 <= cst < len(bs):
                    return I(bs[cst])
            if b.op == "g":
                mod = s.prog.mods.get(b.a[1]) if b.a[1] else None
                m, g = s.const_global(mod, b.a[0])
                if g and "init" in g and (g["const"] or b.a[0].endswith("_desc") or s.neverwritten(m, b.a[0])):
                    v = s.ginit(m, g["init"], cst, ty)
                    if v is not None:
                        return v
        for dst, n, src, over in reversed(st.copies):
            d = sub(addr, dst)
            if d.op == "i" and 0 <= d.a[0] < n and addr not in over:
                return s.load(st, addc(src, d.a[0]), ty)
        if st.zeroed:
            for b in base_atoms(addr):
                if b in st.zeroed:
                    return mk("cf", "0") if ty in ("f32", "f64") else ZERO
        w = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}.get(ty)
        return mk("ld", addr, st.ver, ty, width=w)

    def conv(s, v, vt, ty):
        fl = ("f32", "f64")
        if (vt in fl) != (ty in fl):
            if v.op == "i" and v.a[0] == 0:
                return mk("cf", "0")
            return mk("reinterp", ty, v)
        if ty in fl:
            return v
        bw = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "ptr": 64, "i1": 1}
        a, b = bw.get(vt, 64), bw.get(ty, 64)
        if b < a:
            return s.trunc(v, b)
        return v

    def trunc(s, x, w):
        if x.op == "i":
            n = x.a[0] & ((1 << w) - 1)
            if w >= 32 and n >= (1 << (w - 1)):
                n -= 1 << w
            return I(n)
        if isbool(x):
            return x
        if w >= 32:
            return x
        if x.width in (1, 8, 16) and x.width <= w:
            return x
        b = bytesof(x)
        if b is not None:
            return frombytes({j: v for j, v in b.items() if j < w // 8})
        if x.op == "shr" or w == 8:
            return frombytes({j: byte(x, j) for j in range(w // 8)})
        if x.op == "trunc":
            if x.a[0] >= w:
                return s.trunc(x.a[1], w)
            return x
        return mk("trunc", w, x, width=w)

    def store(s, st, addr, val, ty):
        addr = st.simp(addr)
        if ty == "i8" and addr not in st.mem:
            for d in range(1, 8):
                c = st.mem.get(addc(addr, -d))
                if c is not None:
                    n = ISZ.get(c[1], 0)
                    if n > d and not isbool(c[0]):
                        for j in range(n):
                            st.mem[addc(addr, j - d)] = (byte(c[0], j), "i8")
                    break
        elif ty == "i8":
            v, vt = st.mem[addr]
            if ISZ.get(vt, 1) > 1 and not isbool(v):
                for j in range(ISZ[vt]):
                    st.mem[addc(addr, j)] = (byte(v, j), "i8")
        elif ty in ("i16", "i32"):
            for j in range(1, ISZ[ty]):
                st.mem.pop(addc(addr, j), None)
        st.mem[addr] = (val, ty)

    def new_obj(s, st, site, zero=False, kind="new"):
        n = st.counts.get(site, 0)
        if n < 3:
            st.counts[site] = n + 1
        else:
            n = 3
        t = mk(kind, site, n)
        if n == 3:
            # summary object: forget its cells
            for k in [k for k in st.mem if t in base_atoms(k)]:
                del st.mem[k]
        if zero:
            st.zeroed = st.zeroed | {t}
        # freshly allocated memory is never NULL here (allocation failure is out of scope)
        st.facts[t] = (1, INF, frozenset())
        return t

    def fresh(s, st, site, ty=None):
        k = ("f",) + (site if isinstance(site, tuple) else (site,))
        n = st.counts.get(k, 0)
        if n < 3:
            st.counts[k] = n + 1
        else:
            n = 3
        w = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}.get(ty)
        t = mk("sym", site, n, width=w)
        if n == 3:
            for L in [L for L in st.facts if t in atoms(L)]:
                del st.facts[L]
            for L in [L for L in st.bools if t in atoms(L)]:
                del st.bools[L]
        return t

    # ---- operands ----------------------------------------------------------------
    def operand(s, o, fr, mod):
        k = o[0]
        if k == "v":
            return fr.env[o[1]]
        if k == "a":
            return fr.args[o[1]]
        if k == "i":
            n = o[1]
            if o[2] == 1:
                return BOOL(n)
            if o[2] in (8, 16):
                n &= (1 << o[2]) - 1
            return I(n)
        if k == "f":
            x = float(o[1])
            return mk("cf", repr(x) if x != int(x) or abs(x) > 1e15 else str(int(x)))
        if k == "fn":
            return mk("fn", o[1])
        if k == "g":
            return s.gterm(mod, o[1])
        if k == "gep":
            g = o[1]
            return addc(s.operand(g["base"], fr, mod), g["off"])
        if k == "zero":
            return ZERO
        return UNDEF

    def site(s, fn, ins):
        """stable name of a program point in its calling context"""
        return tuple(f + ":" + str(i) for f, i in s.ctxpath) + ("%s:%s" % (fn.name, ins["id"]),)

    # ---- execution ---------------------------------------------------------------
    def run(s, fn, args, st):
        """all outcomes (state, return value) of calling fn"""
        s.ctxpath = []
        s.stack = []
        return s.call_fn(fn, args, st)

    def call_fn(s, fn, args, st):
        s.visited.add(fn.name)
        s.stack.append(fn.name)
        try:
            return s.exec_fn(fn, args, st)
        finally:
            s.stack.pop()

    def exec_fn(s, fn, args, st0):
        outs = []
        loops = fn.loops()
        mod = fn.mod

        class Fr:
            __slots__ = ("args", "env")

        work = []
        fr0 = Fr()
        fr0.args = list(args)
        fr0.env = {}
        seen = set()

        def enter(b, prev, fr, st, lctx):
            # leave loops not containing b
            while lctx and b not in lctx[-1].body:
                lctx = lctx[:-1]
            blk = fn.blocks[b]
            vals = {}
            for ins in blk:
                if ins["op"] != "phi":
                    if ins["op"] == "dbgdecl":
                        continue
                    break
                for pb, o in ins["ops"]:
                    if pb == prev:
                        vals[ins["id"]] = s.operand(o, fr, mod)
                        break
            if b in loops:
                cur = None
                for c in lctx:
                    if c.head == b:
                        cur = c
                if cur is None:
                    c = LoopCtx()
                    c.head = b
                    c.body = loops[b]
                    c.st = st.copy()
                    c.phis = dict(vals)
                    c.n = 0
                    c.k = 0
                    c.und = False
                    lctx = lctx + (c,)
                elif (not cur.und and cur.k < s.unroll_const) or cur.k < s.unroll:
                    while lctx[-1] is not cur:
                        lctx = lctx[:-1]
                    c = LoopCtx()
                    c.head = b
                    c.body = loops[b]
                    c.st = st.copy()
                    c.phis = dict(vals)
                    c.n = 0
                    c.k = cur.k + 1
                    c.und = False
                    lctx = lctx[:-1] + (c,)
                else:
                    # drop inner loops
                    while lctx[-1] is not cur:
                        lctx = lctx[:-1]
                    w = s.widen(fn, b, cur, st, vals)
                    if w is None:
                        s.npaths += 1
                        h = s.hooks.get("backedge")
                        if h:
                            h(s, fn, b, st)
                        return
                    st, vals = w
                    vals = dict(vals)
                    st = st.copy()
            nfr = fr
            if vals:
                nfr = Fr()
                nfr.args = fr.args
                nfr.env = dict(fr.env)
                nfr.env.update(vals)
            work.append((b, 0, nfr, st, lctx))

        enter(0, None, fr0, st0.copy(), ())
        while work:
            b, idx, fr, st, lctx = work.pop()
            blk = fn.blocks[b]
            n = len(blk)
            env_owned = False
            i = idx
            done = False
            while i < n:
                ins = blk[i]
                op = ins["op"]
                i += 1
                if op in ("phi", "dbgdecl"):
                    continue
                s.steps += 1
                if s.steps > s.max_steps:
                    raise Budget("analysis budget exceeded in %s" % fn.name)
                if op == "br":
                    if len(ins["succ"]) == 1:
                        enter(ins["succ"][0], b, fr, st, lctx)
                    else:
                        c = s.operand(ins["ops"][0], fr, mod)
                        c = s.asbool(c)
                        v = st.ev(c)
                        if v is not None:
                            enter(ins["succ"][0 if v else 1], b, fr, st, lctx)
                        else:
                            for lc in lctx:
                                if ins["succ"][0] not in lc.body or ins["succ"][1] not in lc.body:
                                    lc.und = True
                            s2 = st.copy()
                            if s2.assume(c, False):
                                s2.trail = s2.trail + ((fn.file, ins.get("line"), "F"),)
                                enter(ins["succ"][1], b, fr, s2, lctx)
                            s1 = st
                            if s1.assume(c, True):
                                s1.trail = s1.trail + ((fn.file, ins.get("line"), "T"),)
                                enter(ins["succ"][0], b, fr, s1, lctx)
                    done = True
                    break
                if op == "switch":
                    c = s.operand(ins["ops"][0], fr, mod)
                    rest = st
                    dead = False
                    if st.simp(c).op != "i":
                        tg = [tb for _, tb in ins["cases"]] + [ins["default"]]
                        for lc in lctx:
                            if any(tb not in lc.body for tb in tg):
                                lc.und = True
                    for cv, tb in ins["cases"]:
                        e = icmp("eq", c, I(cv))
                        v = rest.ev(e)
                        if v is False:
                            continue
                        s1 = rest.copy()
                        if s1.assume(e, True):
                            s1.trail = s1.trail + ((fn.file, ins.get("line"), "case %d" % cv),)
                            enter(tb, b, fr, s1, lctx)
                        if v is True or not rest.assume(e, False):
                            dead = True
                            break
                    if not dead:
                        rest.trail = rest.trail + ((fn.file, ins.get("line"), "default"),)
                        enter(ins["default"], b, fr, rest, lctx)
                    done = True
                    break
                if op == "ret":
                    v = s.operand(ins["ops"][0], fr, mod) if ins["ops"] else None
                    s.npaths += 1
                    outs.append(Outcome(st, v))
                    done = True
                    break
                if op == "unreachable":
                    done = True
                    break
                if op == "call":
                    res = s.do_call(fn, ins, fr, st)
                    if res is None:
                        done = True
                        break
                    if len(res) == 1:
                        st, rv = res[0]
                        if ins["ty"] != "void":
                            if not env_owned:
                                nf = Fr()
                                nf.args = fr.args
                                nf.env = dict(fr.env)
                                fr = nf
                                env_owned = True
                            fr.env[ins["id"]] = rv if rv is not None else UNDEF
                        continue
                    for st2, rv in res:
                        nf = Fr()
                        nf.args = fr.args
                        nf.env = dict(fr.env)
                        if ins["ty"] != "void":
                            nf.env[ins["id"]] = rv if rv is not None else UNDEF
                        work.append((b, i, nf, st2, lctx))
                    done = True
                    break
                if op == "select":
                    c = s.asbool(s.operand(ins["ops"][0], fr, mod))
                    v = st.ev(c)
                    for val in ((v,) if v is not None else (True, False)):
                        s2 = st.copy()
                        if s2.assume(c, val):
                            nf = Fr()
                            nf.args = fr.args
                            nf.env = dict(fr.env)
                            nf.env[ins["id"]] = s.operand(ins["ops"][1 if val else 2], fr, mod)
                            work.append((b, i, nf, s2, lctx))
                    done = True
                    break
                r = s.simple(fn, ins, fr, st)
                if r is not None:
                    if not env_owned:
                        nf = Fr()
                        nf.args = fr.args
                        nf.env = dict(fr.env)
                        fr = nf
                        env_owned = True
                    fr.env[ins["id"]] = r
        return outs

    def asbool(s, c):
        if isbool(c):
            return c
        return NOT(icmp("eq", c, ZERO))

    def simple(s, fn, ins, fr, st):
        op = ins["op"]
        mod = fn.mod
        if op == "alloca":
            t = mk("alloca", s.site(fn, ins))
            st.facts.setdefault(t, (1, INF, frozenset()))
            # re-entering: contents undefined
            for k in [k for k in st.mem if t in base_atoms(k)]:
                del st.mem[k]
            return t
        if op == "load":
            a = s.operand(ins["ops"][0], fr, mod)
            h = s.hooks.get("load")
            if h:
                h(s, fn, ins, st, a)
            return st.simp(s.load(st, a, ins["ty"]))
        if op == "store":
            v = s.operand(ins["ops"][0], fr, mod)
            a = s.operand(ins["ops"][1], fr, mod)
            h = s.hooks.get("store")
            if h:
                h(s, fn, ins, st, a, v)
            s.store(st, a, v, ins["vty"])
            return None
        if op == "getelementptr":
            g = ins["gep"]
            t = addc(s.operand(g["base"], fr, mod), g["off"])
            for o, sz in g["vars"]:
                t = add(t, scale(s.numify(s.operand(o, fr, mod)), sz))
            return t
        if op == "icmp":
            a = s.operand(ins["ops"][0], fr, mod)
            b = s.operand(ins["ops"][1], fr, mod)
            if ins["pred"][0] == "s" and ins["cty"] in ("i8", "i16"):
                w = int(ins["cty"][1:])
                if b.op == "i" and b.a[0] >= 1 << (w - 1):
                    b = I(b.a[0] - (1 << w))
                if a.op == "i" and a.a[0] >= 1 << (w - 1):
                    a = I(a.a[0] - (1 << w))
            p = ins["pred"]
            if p[0] == "u" and ins["cty"] != "ptr" and a.op != "b" and b.op != "b":
                # a signed quantity that may be negative, compared as unsigned
                for x in (a, b):
                    if st.bounds(x)[0] < 0 and any(y.width == "s" for y in linatoms(x)):
                        return {"ult": lambda: mk("ult", a, b, width=1), "uge": lambda: NOT(mk("ult", a, b, width=1)),
                                "ugt": lambda: mk("ult", b, a, width=1), "ule": lambda: NOT(mk("ult", b, a, width=1))}[p]()
            return icmp(ins["pred"], a, b)
        if op == "fcmp":
            return fcmp(ins["pred"], s.operand(ins["ops"][0], fr, mod), s.operand(ins["ops"][1], fr, mod))
        if op in ("zext", "sext", "bitcast", "inttoptr", "ptrtoint", "fpext", "fptrunc", "freeze"):
            return s.operand(ins["ops"][0], fr, mod)
        if op == "trunc":
            x = s.operand(ins["ops"][0], fr, mod)
            if ins["ty"] == "i1":
                return s.asbool(x)
            w = int(ins["ty"][1:])
            x = st.simp(x)
            if w in (8, 16) and x.op not in ("i", "b") and not isbool(x):
                lo, hi = st.bounds(x)
                if 0 <= lo and hi < 1 << w:
                    return x
            return s.trunc(x, w)
        if op in ("sitofp", "uitofp"):
            x = s.operand(ins["ops"][0], fr, mod)
            if x.op == "i":
                return mk("cf", str(x.a[0]))
            return mk("i2f", x)
        if op in ("fptosi", "fptoui"):
            x = s.operand(ins["ops"][0], fr, mod)
            if x.op == "cf":
                return I(int(float(x.a[0])))
            r = mk("f2i", x, width=32)
            if nonneg(st, x):
                lo, hi, ex = st.facts.get(r, (-INF, INF, frozenset()))
                st.facts[r] = (max(lo, 0), hi, ex)
            return r
        if op == "fneg":
            return mk("fneg", s.operand(ins["ops"][0], fr, mod))
        if len(ins["ops"]) == 2:
            a = s.operand(ins["ops"][0], fr, mod)
            b = s.operand(ins["ops"][1], fr, mod)
            a = st.simp(a)
            b = st.simp(b)
            h = s.hooks.get("binop")
            if h:
                h(s, fn, ins, st, op, a, b)
            w = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}.get(ins["ty"])
            r = binop(op, a, b, width=w)
            if w in (8, 16) and op in ("add", "sub", "mul", "shl") and not isbool(r):
                # narrow arithmetic wraps around
                lo, hi = st.bounds(r)
                if lo < 0 or hi >= 1 << w:
                    if lo > -INF and hi < INF and lo >> w == hi >> w:
                        r = addc(r, -(lo >> w << w))
                    else:
                        r = s.trunc(r, w)
            return r
        if ins["ty"] == "void":
            return None
        return mk("unk", s.site(fn, ins))

    def numify(s, t):
        if t is TRUE:
            return ONE
        if t is FALSE:
            return ZERO
        return t

    # ---- calls -------------------------------------------------------------------
    def do_call(s, fn, ins, fr, st):
        """list of (state, value); None = path ends"""
        mod = fn.mod
        c = ins["callee"]
        args = [s.operand(o, fr, mod) for o in ins["ops"]]
        args = [a if a is UNDEF else st.simp(a) for a in args]
        if c[0] == "fn":
            name = c[1]
        else:
            t = st.simp(s.operand(c, fr, mod))
            if t.op == "fn":
                name = t.a[0]
            else:
                name = None
                h = s.models.get("*icall*")
                if h:
                    return s.norm(h(s, st, t, args, fn, ins), st)
                st.ev_add("icall", t, tuple(args))
                return [(st, s.fresh(st, s.site(fn, ins), ins["ty"]))]
        if ins.get("intr"):
            return s.intrinsic(name, args, st, fn, ins)
        h = s.hooks.get("call")
        if h:
            h(s, fn, ins, st, name, args)
        m = s.models.get(name)
        if m is not None:
            s.cur = (fn, ins)
            r = m(s, st, args, fn, ins)
            if r is not NotImplemented:
                return s.norm(r, st)
        tgt = s.prog.func(name, mod)
        if tgt is None and c[0] != "fn":
            tgt = s.prog.func(name)      # a static function of another file, through a pointer
        if tgt is not None:
            if s.stack.count(name) > s.recursion or len(s.stack) > s.inline_depth:
                st.ev_add("recur", name, tuple(args))
                s.opaque.add(name)
                return [(st, s.fresh(st, s.site(fn, ins), ins["ty"]))]
            s.ctxpath.append((fn.name, ins["id"]))
            try:
                outs = s.call_fn(tgt, args, st)
            finally:
                s.ctxpath.pop()
            if not outs:
                return None
            return [(o.st, o.ret) for o in outs]
        # external
        s.extfns.add(name)
        from .models import LIBC
        m = LIBC.get(name)
        if m is not None:
            return s.norm(m(s, st, args, fn, ins), st)
        st.ev_add("ext", name, tuple(args))
        return [(st, s.fresh(st, s.site(fn, ins), ins["ty"]))]

    def norm(s, r, st):
        if r is None:
            return None
        if isinstance(r, T):
            return [(st, r)]
        if isinstance(r, tuple):
            return [r]
        return r if r else None

    def intrinsic(s, name, args, st, fn, ins):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            s.memcpy(st, args[0], args[1], args[2])
            return [(st, args[0])]
        if name.startswith("llvm.memset"):
            s.memset(st, args[0], args[1], args[2])
            return [(st, None)]
        if name.startswith("llvm.bswap"):
            return [(st, bswap(args[0], int(name.rsplit("i", 1)[1]) // 8))]
        if name.startswith("llvm.abs"):
            from .models import m_abs
            return s.norm(m_abs(s, st, args, fn, ins), st)
        if name.startswith("llvm.fabs"):
            return [(st, mk("call", "fabs", args[0]))]
        if ins["ty"] == "void":
            return [(st, None)]
        return [(st, mk("call", name, *args))]

    def memset(s, st, dst, v, n):
        if dst.op not in ("i",):
            for k in [k for k in st.mem if sub(k, dst).op == "i" and n.op == "i" and 0 <= sub(k, dst).a[0] < n.a[0]]:
                del st.mem[k]
            if v.op == "i" and v.a[0] == 0 and len(lin_parts(dst)[1]) == 1 and lin_parts(dst)[0] == 0:
                st.zeroed = st.zeroed | {dst}
            else:
                st.ev_add("memset", dst, v, n)

    def memcpy(s, st, dst, src, n):
        h = s.hooks.get("memcpy")
        if h:
            h(s, st, dst, src, n)
        if n.op == "i":
            N = n.a[0]
            moved = []
            for k in list(st.mem):
                d = sub(k, src)
                if d.op == "i" and 0 <= d.a[0] < N:
                    moved.append((addc(dst, d.a[0]), st.mem[k]))
                d = sub(k, dst)
                if d.op == "i" and 0 <= d.a[0] < N:
                    del st.mem[k]
            for k, v in moved:
                st.mem[k] = v
            st.copies = st.copies + ((dst, N, src, frozenset()),)
            if len(st.copies) > 16:
                st.copies = st.copies[-16:]
        else:
            st.ev_add("memcpy", dst, src, n)

    # ---- widening ----------------------------------------------------------------
    def widen(s, fn, head, ctx, st, phis):
        """join the state arriving over a back edge into the loop-head state.
        None when it is already covered."""
        ctx.n += 1
        W = ctx.st
        changed = False
        tag = (tuple(s.ctxpath), fn.name, head)
        new = State()
        subst = {}      # loop symbol -> (value in W, value in st)

        def lsym(key, v0, v1, ty=None):
            w = None
            for v in (v0, v1):
                if v is not None and v.width is not None:
                    w = v.width
            t = mk("sym", "loop", tag, key, width=w)
            subst[t] = (v0, v1)
            return t

        nph = {}
        for k, v0 in ctx.phis.items():
            v1 = phis.get(k, UNDEF)
            if v0 is v1:
                nph[k] = v0
            else:
                nph[k] = lsym(("phi", k), v0, v1)
                if nph[k] is not v0:
                    changed = True
        stale = None
        # memory
        loopsyms_prefix = tag

        def mentions(t):
            for a in atoms(t):
                if a.op == "sym" and len(a.a) == 3 and a.a[0] == "loop" and a.a[1] == tag:
                    return True
            return False

        new.mem = {}
        for k, (v0, t0) in W.mem.items():
            if k in st.mem:
                v1, t1 = st.mem[k]
            else:
                v1, t1 = None, t0
            if v1 is v0 and t0 == t1 and not (v0.op != "sym" and mentions(v0)):
                new.mem[k] = (v0, t0)
            else:
                v = lsym(("mem", k), v0, v1)
                new.mem[k] = (v, t0)
                if v is not v0:
                    changed = True
        for k, (v1, t1) in st.mem.items():
            if k not in W.mem:
                if mentions(k) or any(a.op in ("alloca",) for a in base_atoms(k)):
                    continue
                # cell first written inside the loop
                v0 = s.load(W, k, t1)
                if v0 is v1:
                    new.mem[k] = (v1, t1)
                    changed = True
                    continue
                v = lsym(("mem", k), v0, v1)
                new.mem[k] = (v, t1)
                changed = True
        # ghost
        new.ghost = {}
        gj = s.hooks.get("ghost_join")
        for k in set(W.ghost) | set(st.ghost):
            g0, g1 = W.ghost.get(k), st.ghost.get(k)
            if g0 == g1:
                new.ghost[k] = g0
            else:
                g = gj(k, g0, g1) if gj else ("top",)
                new.ghost[k] = g
                if g != g0:
                    changed = True
        # facts
        def wb(t, v):
            if v is None:
                return (-INF, INF)
            return t.bounds(v)

        new.facts = {}
        for L, (lo, hi, ex) in W.facts.items():
            ls = [a for a in atoms(L) if a.op == "sym" and len(a.a) == 3 and a.a[0] == "loop" and a.a[1] == tag]
            if ls:
                if L.op == "lin" or L in subst:
                    L1 = L
                    d = dict(lin_parts(L)[1])
                    t1 = ZERO
                    ok = True
                    for a, k in d.items():
                        if a in subst:
                            v1 = subst[a][1]
                            if v1 is None or v1 is UNDEF:
                                ok = False
                                break
                            t1 = add(t1, scale(v1, k))
                        else:
                            t1 = add(t1, scale(a, k))
                    if not ok:
                        changed = True
                        continue
                    l1, h1 = st.bounds(t1)
                    ex1 = frozenset(e for e in ex if st.ev(icmp("eq", t1, I(e))) is False)
                else:
                    changed = True
                    continue
            else:
                l1, h1 = st.bounds(L)
                f1 = st.facts.get(L)
                ex1 = ex & f1[2] if f1 else frozenset(e for e in ex if e < l1 or e > h1)
            nlo = lo if l1 >= lo else (-INF if ctx.n > 1 else l1)
            nhi = hi if h1 <= hi else (INF if ctx.n > 1 else h1)
            if ex1 != ex:
                ex = ex1
                changed = True
            if (nlo, nhi) != (lo, hi):
                changed = True
            if nlo > -INF or nhi < INF or ex:
                new.facts[L] = (nlo, nhi, ex)
            else:
                changed = True
        # facts about new loop symbols
        others = set()
        for L in list(W.facts) + list(st.facts):
            for a in linatoms(L):
                if not mentions(a):
                    others.add(a)
        for t, (v0, v1) in subst.items():
            if v0 is t:
                continue
            if v0 is None or v1 is None or v0 is UNDEF or v1 is UNDEF:
                continue
            l0, h0 = wb(W, v0)
            l1, h1 = wb(st, v1)
            lo = min(l0, l1) if l1 >= l0 or ctx.n <= 1 else -INF
            hi = max(h0, h1) if h1 <= h0 or ctx.n <= 1 else INF
            if lo > -INF or hi < INF:
                cur = new.facts.get(t)
                if cur is None:
                    ex = frozenset()
                    if lo > -INF and lo == l0:
                        pass
                    new.facts[t] = (lo, hi, ex)
            # disequalities with small constants common to both (e.g. non-NULL)
            ex = frozenset(e for e in (0,) if W.ev(icmp("eq", v0, I(e))) is False and st.ev(icmp("eq", v1, I(e))) is False)
            if ex:
                cur = new.facts.get(t, (-INF, INF, frozenset()))
                new.facts[t] = (cur[0], cur[1], cur[2] | ex)
            if v0.op in ("cf",) or v1.op in ("cf",):
                continue
            if isbool(v0) or isbool(v1):
                continue
            for o in others:
                d0 = sub(v0, o)
                d1 = sub(v1, o)
                l0, h0 = W.bounds(d0)
                l1, h1 = st.bounds(d1)
                # never use plain interval arithmetic that is already implied
                L, sg, c = split(sub(t, o))
                if L is None or L.op != "lin":
                    continue
                lo = l0 if l1 >= l0 else (l1 if ctx.n <= 1 else -INF)
                hi = h0 if h1 <= h0 else (h1 if ctx.n <= 1 else INF)
                if lo == -INF and hi == INF:
                    continue
                lo, hi = (lo - c, hi - c) if sg > 0 else (c - hi, c - lo)
                if L not in new.facts:
                    new.facts[L] = (lo, hi, frozenset())
        new.bools = {}
        for b, v in W.bools.items():
            if st.bools.get(b) == v and not mentions(b):
                new.bools[b] = v
            else:
                changed = True
        # events: prefix of W kept, loop body events folded into a LOOP marker
        if st.events != W.events:
            p = 0
            while p < len(W.events) and p < len(st.events) and W.events[p] == st.events[p]:
                p += 1
            marker = None
            if p < len(W.events) and W.events[p][0] == "LOOP" and W.events[p][1] == tag:
                marker = W.events[p]
                # st must have extended it
            pre = W.events[:p]
            delta = st.events[p:]
            # st may start with old marker (then p already passed it)
            if p > 0 and W.events[p - 1][0] == "LOOP" and W.events[p - 1][1] == tag and p == len(W.events):
                marker = W.events[p - 1]
                pre = W.events[:p - 1]
            old = set(marker[2]) if marker else set()
            flat = set()
            for e in delta:
                if e[0] == "LOOP" and e[1] == tag:
                    flat |= set(e[2])
                else:
                    flat.add(e)
            ns = frozenset(old | flat)
            new.events = pre + (("LOOP", tag, ns),)
            if new.events != W.events:
                changed = True
        else:
            new.events = W.events
        new.counts = dict(W.counts)
        for k, v in st.counts.items():
            if new.counts.get(k, 0) < v:
                new.counts[k] = v
        if W.copies != st.copies:
            new.copies = tuple(c for c in st.copies if c in W.copies)
            if new.copies != W.copies:
                changed = True
        else:
            new.copies = W.copies
        new.zeroed = W.zeroed & st.zeroed if False else (W.zeroed | st.zeroed)
        if W.ver != st.ver:
            new.ver = ("h", tag)
            if new.ver != W.ver:
                changed = True
        else:
            new.ver = W.ver
        new.trail = st.trail
        if len(new.trail) > 60:
            new.trail = new.trail[:60]
        if not changed:
            return None
        if ctx.n > 200:
            raise Budget("loop in %s does not stabilise" % fn.name)
        ctx.st = new
        ctx.phis = nph
        return new, nph
