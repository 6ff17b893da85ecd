"""Models of Buzz's containers / heap interface and a symbolic VM to analyse against."""
from .terms import *
from .absint import Interp, State, INF
from .ir import AnalysisError
from . import models as M

SZ = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "f32": 4, "f64": 8}


class Env:
    """offsets of the structures, looked up in the debug info of the current tree"""

    def __init__(s, prog):
        s.p = prog
        o = prog.off
        s.DA = {f: o("buzzdarray_s", f) for f in ("data", "size", "elem_size", "capacity", "elem_destroy")}
        s.DD = {f: o("buzzdict_s", f) for f in ("size",)}
        s.VM = {f["name"]: f["off"] for f in prog.di["buzzvm_s"]["fields"]}
        s.LS = {f["name"]: f["off"] for f in prog.di["buzzvm_lsyms_s"]["fields"]}
        s.HP = {f["name"]: f["off"] for f in prog.di["buzzheap_s"]["fields"]}
        s.TYPE = 0
        s.vi = o("buzzint_t", "value")
        s.vf = o("buzzfloat_t", "value")
        s.vs = o("buzzstring_t", "value")
        s.vt = o("buzztable_t", "value")
        s.vc = o("buzzclosure_t", "value")
        s.vu = o("buzzuserdata_t", "value")
        e = prog.enum
        s.READY, s.DONE, s.ERROR = e("BUZZVM_STATE_READY"), e("BUZZVM_STATE_DONE"), e("BUZZVM_STATE_ERROR")
        s.NOCODE, s.STOPPED = e("BUZZVM_STATE_NOCODE"), e("BUZZVM_STATE_STOPPED")
        s.E = {k[len("BUZZVM_ERROR_"):]: v for k, v in prog.enumvals.items() if k.startswith("BUZZVM_ERROR_")}
        s.NIL, s.INT, s.FLOAT, s.STRING, s.TABLE, s.CLOSURE, s.USERDATA = range(7)
        s.TN = ["nil", "int", "float", "string", "table", "closure", "userdata"]

    # sub-fields of anonymous struct members: resolved from the anonymous structs themselves
    def sub(s, outer, names):
        for k, v in s.p.di.items():
            if k.startswith("anon@") and {f["name"] for f in v["fields"]} == set(names):
                return {f["name"]: f["off"] for f in v["fields"]}
        raise AnalysisError("anonymous value struct of %s not found" % outer)

    @property
    def cl(s):
        d = s.sub("buzzclosure_t", ("ref", "actrec", "isnative"))
        return {k: v + s.vc for k, v in d.items()}

    @property
    def sv(s):
        d = s.sub("buzzstring_t", ("sid", "str"))
        return {k: v + s.vs for k, v in d.items()}


# ---- darray ------------------------------------------------------------------------
class DArr:
    def __init__(s, env):
        s.v = env
        s.DA = env.DA

    def size(s, e, st, da):
        return e.load(st, addc(da, s.DA["size"]), "i64")

    def data(s, e, st, da):
        return e.load(st, addc(da, s.DA["data"]), "ptr")

    def setsize(s, e, st, da, v):
        e.store(st, addc(da, s.DA["size"]), v, "i64")

    def elem(s, e, st, da, idx, ty="ptr"):
        return e.load(st, add(s.data(e, st, da), scale(idx, SZ[ty])), ty)

    def content(s, e, st, p):
        """(value, type) a void* element argument points at"""
        p = st.simp(p)
        c = st.mem.get(p)
        if c is not None:
            return c
        # array element / unknown: assume pointer-sized unless it is a byte-typed symbol
        for a in linatoms(p):
            pass
        return e.load(st, p, "ptr"), "ptr"

    def esz(s, e, st, da, ty):
        z = e.load(st, addc(da, s.DA["elem_size"]), "i32")
        if z.op == "i":
            return z.a[0]
        return SZ.get(ty, 8)

    def new(s, e, st, args, fn, ins):
        o = e.new_obj(st, e.site(fn, ins))
        s.init(e, st, o, args[1], args[2])
        st.ev_add("da_new", o, args[1])
        return st, o

    def init(s, e, st, o, es, dest):
        e.store(st, addc(o, s.DA["size"]), ZERO, "i64")
        e.store(st, addc(o, s.DA["elem_size"]), es, "i32")
        e.store(st, addc(o, s.DA["elem_destroy"]), dest, "ptr")
        d = mk("dadata", o)
        st.facts[d] = (1, INF, frozenset())
        e.store(st, addc(o, s.DA["data"]), d, "ptr")

    def at_end(s, e, st, da, pos, delta):
        d = sub(pos, add(s.size(e, st, da), I(delta)))
        return d.op == "i" and d.a[0] == 0

    def put(s, e, st, da, idx, p):
        """copy one element from p to da[idx]"""
        z = e.load(st, addc(da, s.DA["elem_size"]), "i32")
        dst = s.data(e, st, da)
        v, ty = s.content(e, st, p)
        if z.op == "i" and z.a[0] not in (1, 2, 4, 8):
            e.memcpy(st, add(dst, scale(idx, z.a[0])), p, z)
            return mk("struct_at", p)
        es = s.esz(e, st, da, ty)
        if es in (1, 2, 4) and SZ.get(ty) != es:
            ty = {1: "i8", 2: "i16", 4: "i32"}[es]
            c = st.mem.get(st.simp(p))
            v = e.load(st, p, ty)
        e.store(st, add(dst, scale(idx, es)), v, ty)
        return v

    def insert(s, e, st, args, fn, ins):
        da, pos, p = args
        n = s.size(e, st, da)
        if s.at_end(e, st, da, pos, 0):
            v = s.put(e, st, da, n, p)
            s.setsize(e, st, da, addc(n, 1))
            st.ev_add("da_push", da, v)
            return st, None
        v, ty = s.content(e, st, p)
        # known window [pos, n) of pointer cells is shifted up by one
        k = sub(n, pos)
        es = s.esz(e, st, da, ty)
        if k.op == "i" and 0 < k.a[0] <= 256:
            d = s.data(e, st, da)
            for j in range(k.a[0], 0, -1):
                x = e.load(st, add(d, scale(addc(pos, j - 1), es)), ty)
                e.store(st, add(d, scale(addc(pos, j), es)), x, ty)
            e.store(st, add(d, scale(pos, es)), v, ty)
            s.setsize(e, st, da, addc(n, 1))
        else:
            lo, hi = st.bounds(k)
            s.setsize(e, st, da, addc(n, 1))
            # contents above pos unknown now
            d0 = s.data(e, st, da)
            nd = e.fresh(st, e.site(fn, ins) + ("data",), "ptr")
            e.store(st, addc(da, s.DA["data"]), nd, "ptr")
            st.ghost[("shift", nd)] = (d0, pos, v)
        st.ev_add("da_insert", da, pos, v)
        return st, None

    def remove(s, e, st, args, fn, ins):
        da, pos = args
        n = s.size(e, st, da)
        res = []
        dt = e.load(st, addc(da, s.DA["elem_destroy"]), "ptr")
        if s.at_end(e, st, da, pos, -1):
            # pop; on an empty array the (unsigned) position is past the end: no effect
            c = icmp("sle", n, ZERO)
            v = st.ev(c)
            if v is not False:
                s0 = st.copy()
                if s0.assume(c, True):
                    s0.ev_add("da_pop_empty", da)
                    res.append((s0, None))
            if v is not True:
                if st.assume(c, False):
                    st.ev_add("da_pop", da, s.elem(e, st, da, addc(n, -1)), dt)
                    s.setsize(e, st, da, addc(n, -1))
                    res.append((st, None))
            return res
        c = icmp("slt", pos, n)
        v = st.ev(c)
        if v is not True:
            s0 = st.copy()
            if s0.assume(c, False):
                res.append((s0, None))
        if v is not False:
            if st.assume(c, True):
                x = s.elem(e, st, da, pos)
                s.setsize(e, st, da, addc(n, -1))
                k = sub(n, pos)
                d0 = s.data(e, st, da)
                es = s.esz(e, st, da, "ptr")
                ty = {1: "i8", 2: "i16", 4: "i32"}.get(es, "ptr")
                if k.op == "i" and 0 < k.a[0] <= 256 and es in (1, 2, 4, 8):
                    for j in range(1, k.a[0]):
                        y = e.load(st, add(d0, scale(addc(pos, j), es)), ty)
                        e.store(st, add(d0, scale(addc(pos, j - 1), es)), y, ty)
                else:
                    # everything from pos on moves down by one
                    nd = mk("dashift", d0, pos, -1)
                    st.facts[nd] = (1, INF, frozenset())
                    e.store(st, addc(da, s.DA["data"]), nd, "ptr")
                    for a in list(st.mem):
                        d = sub(a, d0)
                        if a is not d0 and d0 in linatoms(a) and lin_parts(a)[1] and dict(lin_parts(a)[1]).get(d0) == 1:
                            del st.mem[a]
                st.ev_add("da_remove", da, pos, x, dt)
                res.append((st, None))
        return res

    def set(s, e, st, args, fn, ins):
        da, pos, p = args
        n = s.size(e, st, da)
        c = icmp("slt", pos, n)
        v = st.ev(c)
        res = []
        if v is not True:
            s0 = st.copy()
            if s0.assume(c, False):
                val, ty = s.content(e, s0, p)
                s0.ev_add("da_set_beyond", da, pos, val)
                # appended at the end
                s.put(e, s0, da, n, p)
                s.setsize(e, s0, da, addc(n, 1))
                res.append((s0, None))
        if v is not False:
            if st.assume(c, True):
                val = s.put(e, st, da, pos, p)
                st.ev_add("da_set", da, pos, val)
                res.append((st, None))
        return res

    def clone(s, e, st, args, fn, ins):
        o = e.new_obj(st, e.site(fn, ins))
        for f, ty in (("size", "i64"), ("elem_size", "i32"), ("elem_destroy", "ptr")):
            e.store(st, addc(o, s.DA[f]), e.load(st, addc(args[0], s.DA[f]), ty), ty)
        d = mk("dadata", o)
        st.facts[d] = (1, INF, frozenset())
        src = s.data(e, st, args[0])
        e.store(st, addc(o, s.DA["data"]), d, "ptr")
        # share contents: cells known now are copied, unknown ones alias the source's initial contents
        for k in list(st.mem):
            dd = dict(lin_parts(k)[1])
            if dd.get(src) == 1:
                st.mem[add(sub(k, src), d)] = st.mem[k]
        st.ghost[("cloneof", d)] = src
        st.ev_add("da_clone", o, args[0])
        return st, o

    def destroy(s, e, st, args, fn, ins):
        da = e.load(st, args[0], "ptr")
        st.ev_add("da_destroy", da)
        e.store(st, args[0], ZERO, "ptr")
        return st, None

    def clear(s, e, st, args, fn, ins):
        s.setsize(e, st, args[0], ZERO)
        st.ev_add("da_clear", args[0])
        return st, None

    def find(s, e, st, args, fn, ins):
        v, ty = s.content(e, st, args[2])
        n = s.size(e, st, args[0])
        r = mk("dafind", args[0], args[1], v, n)
        st.assume(icmp("sge", r, ZERO), True)
        st.assume(icmp("sle", r, n), True)
        st.ev_add("da_find", args[0], args[1], args[2], v)
        return st, r

    def table(s):
        return {"buzzdarray_new": s.new, "buzzdarray_insert": s.insert, "buzzdarray_remove": s.remove,
                "buzzdarray_set": s.set, "buzzdarray_clone": s.clone, "buzzdarray_destroy": s.destroy,
                "buzzdarray_clear": s.clear, "buzzdarray_find": s.find}


def load_dash(e, st, addr, ty):
    return None


# ---- dict --------------------------------------------------------------------------
def distinct(a, b):
    """keys that certainly differ"""
    if a.op in ("skey", "ikey") and b.op in ("skey", "ikey"):
        if a.op != b.op:
            return True
        a, b = a.a[0], b.a[0]
    if a.op == "i" and b.op == "i":
        return a is not b
    return a.op == "sid" and b.op == "sid" and a is not b and a.a[0].op == "str" and b.a[0].op == "str"


class Dict:
    def __init__(s, env, keyfn=None):
        s.v = env
        s.keyfn = keyfn
        s.canon = False      # identify key objects by their value instead of their address

    def canonkey(s, e, st, k):
        """key objects with equal visible values are the same key"""
        ty = st.simp(e.load(st, k, "i16"))
        if ty is I(s.v.STRING):
            sid = st.simp(e.load(st, addc(k, s.v.sv["sid"]), "i16"))
            return mk("skey", sid)
        if ty is I(s.v.INT):
            return mk("ikey", st.simp(e.load(st, addc(k, s.v.vi), "i32")))
        return k

    def bump(s, st, dt):
        """unknown code may have changed dt: forget what is known about it"""
        st.ghost[("dver", dt)] = st.ghost.get(("dver", dt), 0) + 1
        st.ghost.pop(("dempty", dt), None)
        for x in [x for x in st.ghost if isinstance(x, tuple) and x[0] == "d" and x[1] is dt]:
            del st.ghost[x]

    def key(s, e, st, p, dt=None):
        p = st.simp(p)
        c = st.mem.get(p)
        if c is not None:
            if s.canon and c[1] == "ptr":
                return s.canonkey(e, st, c[0])
            return c[0]
        if dt is not None:
            ks = st.ghost.get(("dks", dt))
            if ks:
                k = e.load(st, p, {2: "i16", 4: "i32"}.get(ks, "ptr"))
                if s.canon and ks == 8:
                    return s.canonkey(e, st, k)
                return k
        h = s.keyfn(e, st, p) if s.keyfn else None
        if h is not None:
            return h
        return mk("deref", p)

    def cell(s, dt, k, st=None):
        v = st.ghost.get(("dver", dt)) if st is not None else None
        return mk("dcell", dt, k, v) if v else mk("dcell", dt, k)

    def new(s, e, st, args, fn, ins):
        o = e.new_obj(st, e.site(fn, ins))
        e.store(st, addc(o, s.v.DD["size"]), ZERO, "i32")
        st.ghost[("dempty", o)] = True
        if args[1].op == "i":
            st.ghost[("dks", o)] = args[1].a[0]
        st.ev_add("dict_new", o, tuple(args))
        return st, o

    def lookup(s, e, st, dt, k):
        """[(state, present?)]"""
        g = st.ghost.get(("d", dt, k))
        if g == "yes":
            return [(st, True)]
        if g == "no":
            return [(st, False)]
        if st.ghost.get(("dempty", dt)) and not any(x[0] == "d" and x[1] is dt and v == "yes" and not distinct(x[2], k)
                                                    for x, v in st.ghost.items() if isinstance(x, tuple)):
            st.ghost[("d", dt, k)] = "no"
            return [(st, False)]
        s2 = st.copy()
        st.ghost[("d", dt, k)] = "yes"
        c = s.cell(dt, k, st)
        st.facts[c] = (1, INF, frozenset())
        s2.ghost[("d", dt, k)] = "no"
        r = [(st, True), (s2, False)]
        # an entry implies a non-empty dictionary
        sz = e.load(st, addc(dt, s.v.DD["size"]), "i32")
        if not st.assume(icmp("sge", sz, ONE), True):
            r = [(s2, False)]
        return r

    def rawget(s, e, st, args, fn, ins):
        dt = args[0]
        k = s.key(e, st, args[1], dt)
        out = []
        for s1, pres in s.lookup(e, st, dt, k):
            s1.ev_add("dget", dt, k, pres)
            out.append((s1, s.cell(dt, k, s1) if pres else ZERO))
        return out

    def set(s, e, st, args, fn, ins):
        dt = args[0]
        k = s.key(e, st, args[1], dt)
        p = st.simp(args[2])
        c = st.mem.get(p)
        v, ty = c if c is not None else (e.load(st, p, "ptr"), "ptr")
        out = []
        for s1, pres in s.lookup(e, st, dt, k):
            szp = addc(dt, s.v.DD["size"])
            if not pres:
                e.store(s1, szp, addc(e.load(s1, szp, "i32"), 1), "i32")
            s1.ghost[("d", dt, k)] = "yes"
            cell = s.cell(dt, k, s1)
            s1.facts[cell] = (1, INF, frozenset())
            e.store(s1, cell, v, ty)
            s1.ev_add("dset", dt, k, v)
            out.append((s1, None))
        return out

    def remove(s, e, st, args, fn, ins):
        dt = args[0]
        k = s.key(e, st, args[1], dt)
        out = []
        for s1, pres in s.lookup(e, st, dt, k):
            szp = addc(dt, s.v.DD["size"])
            if pres:
                e.store(s1, szp, addc(e.load(s1, szp, "i32"), -1), "i32")
            s1.ghost[("d", dt, k)] = "no"
            s1.mem.pop(s.cell(dt, k, s1), None)
            s1.ev_add("dremove", dt, k, pres)
            out.append((s1, ONE if pres else ZERO))
        return out

    def callback(s, e, st, cb, args, fn, ins):
        if cb.op != "fn":
            st.ev_add("icall", cb, tuple(args))
            return [(st, None)]
        f = e.prog.func(cb.a[0], fn.mod) or e.prog.func(cb.a[0])
        m = e.models.get(cb.a[0])
        if m is not None:
            return e.norm(m(e, st, args, fn, ins), st) or []
        if f is None:
            return [(st, None)]
        if e.stack.count(f.name) > e.recursion:
            st.ev_add("recur", f.name, tuple(args))
            return [(st, None)]
        e.ctxpath.append((fn.name, ins["id"]))
        try:
            return [(o.st, None) for o in e.call_fn(f, args, st)]
        finally:
            e.ctxpath.pop()

    def foreach(s, e, st, args, fn, ins):
        """0 elements, or a generic element processed by the callback"""
        dt, cb, par = args
        conc = st.ghost.get(("dconc", dt))
        if conc is not None:
            sts = [st]
            st.ev_add("fe_begin", dt, cb)
            for i, (k, kty, x, xty) in enumerate(conc):
                nxt = []
                for s1 in sts:
                    kp, dp = mk("fekey", dt, i), mk("fedata", dt, i)
                    s1.facts[kp] = s1.facts[dp] = (1, INF, frozenset())
                    e.store(s1, kp, k, kty)
                    e.store(s1, dp, x, xty)
                    nxt += [q for q, _ in s.callback(e, s1, cb, [kp, dp, par], fn, ins)]
                sts = nxt
            for s1 in sts:
                s1.ev_add("fe_end", dt)
            return [(s1, None) for s1 in sts]
        none = st.copy()
        none.ev_add("fe_none", dt, cb)
        kp = mk("fekey", dt, e.site(fn, ins))
        dp = mk("fedata", dt, e.site(fn, ins))
        st.facts[kp] = (1, INF, frozenset())
        st.facts[dp] = (1, INF, frozenset())
        st.ev_add("fe_begin", dt, cb)
        outs = s.callback(e, st, cb, [kp, dp, par], fn, ins)
        for s1, _ in outs:
            s1.ev_add("fe_end", dt)
        return [(none, None)] + [(s1, None) for s1, _ in outs]

    def destroy(s, e, st, args, fn, ins):
        dt = e.load(st, args[0], "ptr")
        st.ev_add("dict_destroy", dt)
        e.store(st, args[0], ZERO, "ptr")
        return st, None

    def table(s):
        return {"buzzdict_new": s.new, "buzzdict_rawget": s.rawget, "buzzdict_set": s.set,
                "buzzdict_remove": s.remove, "buzzdict_foreach": s.foreach, "buzzdict_destroy": s.destroy}


def vm_models(env, opaque_gc=True):
    t = {}
    da = DArr(env)
    dd = Dict(env)
    t.update(da.table())
    t.update(dd.table())

    def seterror(e, st, args, fn, ins):
        vm = args[0]
        e.store(st, addc(vm, env.VM["state"]), I(env.ERROR), "i32")
        e.store(st, addc(vm, env.VM["error"]), args[1], "i32")
        m = e.new_obj(st, ("errmsg",))
        e.store(st, addc(vm, env.VM["errormsg"]), m, "ptr")
        st.ev_add("seterror", args[1], "%s:%s" % (fn.file, ins.get("line")))
        return st, None

    def gc(e, st, args, fn, ins):
        st.ev_add("gc")
        return st, None

    def strreg(e, st, args, fn, ins):
        t = mk("sid", args[1], width=16)
        st.facts[mk("sget", t)] = (1, INF, frozenset())
        st.ev_add("strreg", args[1], args[2])
        return st, t

    def strget(e, st, args, fn, ins):
        k = args[1]
        if k.op == "trunc":
            pass
        r = mk("sget", k)
        return st, r

    def newobj(e, st, args, fn, ins):
        o = e.new_obj(st, e.site(fn, ins), zero=True)
        e.store(st, o, args[1], "i16")
        ty = args[1]
        if ty.op == "i" and ty.a[0] == env.TABLE:
            d = mk("tabdict", o)
            st.facts[d] = (1, INF, frozenset())
            e.store(st, addc(o, env.vt), d, "ptr")
            e.store(st, addc(d, env.DD["size"]), ZERO, "i32")
            st.ghost[("dempty", d)] = True
        elif ty.op == "i" and ty.a[0] == env.CLOSURE:
            d = mk("actrec", o)
            st.facts[d] = (1, INF, frozenset())
            e.store(st, addc(o, env.cl["actrec"]), d, "ptr")
            da.init(e, st, d, I(8), ZERO)
        st.ev_add("newobj", o, args[1])
        return st, o

    t["buzzvm_seterror"] = seterror
    if opaque_gc:
        t["buzzheap_gc"] = gc
    t["buzzstrman_register"] = strreg
    t["buzzstrman_get"] = strget
    t["buzzheap_newobj"] = newobj
    t["_da"] = da
    t["_dd"] = dd
    return t


class VM:
    """a symbolic VM in a given abstract pre-state"""

    def __init__(s, env, interp, st=None):
        s.v = env
        s.e = interp
        s.st = st or State()
        s.vm = mk("arg", "vm")
        s.da = DArr(env)
        st = s.st
        st.facts[s.vm] = (1, INF, frozenset())
        for f in ("stack", "stacks", "lsyms", "lsymts", "gsyms", "strings", "heap", "flist", "swarms", "swarmstack",
                  "swarmmembers", "inmsgs", "outmsgs", "vstigs", "listeners", "bcode"):
            if f in env.VM:
                t = mk("vmf", f)
                st.facts[t] = (1, INF, frozenset())
                s.set(f, t, "ptr")
        s.stack = mk("vmf", "stack")
        s.S0 = mk("n0", "stack", width="u")
        s.size(s.stack, s.S0)
        s.set("state", I(env.READY), "i32")
        s.set("error", I(env.E["NONE"]), "i32")
        s.set("errormsg", ZERO, "ptr")
        s.pc = mk("pc0", width="s")
        s.bsz = mk("bsz", width="u")
        s.set("pc", s.pc, "i32")
        s.set("bcode_size", s.bsz, "i32")
        s.robot = mk("robot", width=16)
        s.set("robot", s.robot, "i16")

    def set(s, f, t, ty):
        s.e.store(s.st, addc(s.vm, s.v.VM[f]), t, ty)

    def get(s, st, f, ty):
        return st.simp(s.e.load(st, addc(s.vm, s.v.VM[f]), ty))

    def darray(s, da, n, es=8):
        s.size(da, n)
        s.e.store(s.st, addc(da, s.v.DA["elem_size"]), I(es), "i32")
        d = mk("dadata", da)
        s.st.facts[d] = (1, INF, frozenset())
        s.e.store(s.st, addc(da, s.v.DA["data"]), d, "ptr")

    def size(s, da, n):
        s.e.store(s.st, addc(da, s.v.DA["size"]), n, "i64")
        d = mk("dadata", da)
        s.st.facts[d] = (1, INF, frozenset())
        s.e.store(s.st, addc(da, s.v.DA["data"]), d, "ptr")

    def frame(s, nsyms=None, swarm=None, name="lsyms"):
        """an active function frame with nsyms local symbols (slot 0 is self)"""
        st = s.st
        ls = mk("vmf", name)
        st.facts[ls] = (1, INF, frozenset())
        da = mk("symsda", name)
        st.facts[da] = (1, INF, frozenset())
        s.e.store(st, addc(ls, s.v.LS["syms"]), da, "ptr")
        n = mk("n0", da, width="u") if nsyms is None else I(nsyms)
        s.darray(da, n)
        if nsyms is None:
            st.assume(icmp("sge", n, ONE), True)
        s.e.store(st, addc(ls, s.v.LS["isswarm"]), I(swarm) if swarm is not None else mk("isswarm", name, width=8), "i8")
        return ls, da, n

    def local(s, da, i):
        return s.e.load(s.st, add(mk("dadata", da), scale(I(i), 8)), "ptr")

    def arr(s, field, n=None, es=8):
        """give vm->field a symbolic size (n0) and element size"""
        da = mk("vmf", field)
        n = mk("n0", field, width="u") if n is None else n
        s.darray(da, n, es)
        return da, n

    def arrput(s, da, idx, val, ty="ptr"):
        s.e.store(s.st, add(mk("dadata", da), scale(idx, SZ[ty])), val, ty)

    def asize(s, st, da):
        return st.simp(s.e.load(st, addc(da, s.v.DA["size"]), "i64"))

    def aget(s, st, da, idx, ty="ptr"):
        d = s.e.load(st, addc(da, s.v.DA["data"]), "ptr")
        return st.simp(s.e.load(st, add(d, scale(idx, SZ[ty])), ty))

    def depth_at_least(s, n):
        s.st.assume(icmp("sge", s.S0, I(n)), True)

    def put(s, i, obj):
        """object at stack position #i (1 = top)"""
        d = mk("dadata", s.stack)
        s.e.store(s.st, add(d, scale(addc(s.S0, -i), 8)), obj, "ptr")

    def obj(s, name, ty=None):
        t = mk("obj", name)
        s.st.facts[t] = (1, INF, frozenset())
        if ty is not None:
            s.e.store(s.st, t, I(ty), "i16")
        return t

    # post-state inspection
    def stack_delta(s, st):
        n = st.simp(s.e.load(st, addc(s.get(st, "stack", "ptr"), s.v.DA["size"]), "i64"))
        d = sub(n, s.S0)
        return d.a[0] if d.op == "i" else None

    def top(s, st, i=1, stack=None):
        da = stack or s.get(st, "stack", "ptr")
        n = s.e.load(st, addc(da, s.v.DA["size"]), "i64")
        return st.simp(s.e.load(st, add(s.e.load(st, addc(da, s.v.DA["data"]), "ptr"), scale(addc(n, -i), 8)), "ptr"))

    def type_of(s, st, o):
        return st.simp(s.e.load(st, o, "i16"))

    def ival(s, st, o):
        return st.simp(s.e.load(st, addc(o, s.v.vi), "i32"))

    def fval(s, st, o):
        return s.e.load(st, addc(o, s.v.vf), "f32")
