"""Shape analysis of buzzdict.c.  Every sequence of set/remove operations up to a bound over keys that
share and do not share a bucket is interpreted from buzzdict_new on, with the stored values opaque; after each step lookup
of every key, the size, foreach, and destroy are compared with a mathematical map, and every memory access, copy,
release and destructor call is an obligation.  For each buzzdict_new() call in the program the hash and comparison functions
it installs are interpreted on pairs of keys of every type: keys that compare as the same must hash alike."""
import itertools
from bzsa.terms import *
from bzsa.absint import State, Interp, INF
from bzsa.ir import AnalysisError
from bzsa.conc import Conc, SZ
from bzsa import models as M


class D:
    def __init__(s, C, ksz, dsz, buckets, destroy):
        s.C, s.ksz, s.dsz, s.buckets, s.dest = C, ksz, dsz, buckets, destroy
        s.k = Conc(C)
        s.kt, s.dt = {2: "i16", 4: "i32", 8: "i64"}[ksz], {1: "i8", 2: "i16", 4: "i32", 8: "i64"}[dsz]
        s.where = "buzzdict.c"

    def at(s, fn):
        f = s.C.prog.need(fn)
        return "%s:%s (%s)" % (f.file, f.line, fn)

    def new(s):
        st = State()
        k = s.k

        def hashf(st, args, fn, ins):
            k.access(st, args[0], s.ksz, fn, ins, "hash of a key")
            v = k.e.load(st, args[0], s.kt)
            if v.op != "i":
                k.bad(st, fn, ins, "the hash function is called on something that is not a key")
                return ZERO
            # three classes; larger than the number of buckets, so that the remainder matters
            return I([0, 0, 1, 2 ** 31 + 5][v.a[0] % 4] - (1 << 32 if v.a[0] % 4 == 3 else 0))

        def cmpf(st, args, fn, ins):
            v = []
            for a in args[:2]:
                k.access(st, a, s.ksz, fn, ins, "comparison of a key")
                v.append(k.e.load(st, a, s.kt))
            if v[0].op != "i" or v[1].op != "i":
                k.bad(st, fn, ins, "the comparison function is called on something that is not a key")
                return ZERO
            return I((v[0].a[0] > v[1].a[0]) - (v[0].a[0] < v[1].a[0]))

        def dest(st, args, fn, ins):
            kk, dd = k.e.load(st, args[0], s.kt), k.e.load(st, args[1], s.dt)
            k.access(st, args[0], s.ksz, fn, ins, "destructor call on a key")
            k.access(st, args[1], s.dsz, fn, ins, "destructor call on a value")
            st.ghost["destroyed"] = st.ghost.get("destroyed", ()) + ((kk, dd),)
            for a in args[:2]:
                k.m_free(k.e, st, [a], fn, ins)
            return ZERO
        h, c = k.cb("hash", hashf), k.cb("cmp", cmpf)
        d = k.cb("destroy", dest) if s.dest else ZERO
        for x in (h, c, d):
            if x is not ZERO:
                st.facts[x] = (1, INF, frozenset())
        s.k.tag = "new"
        return k.call(st, "buzzdict_new", I(s.buckets), I(s.ksz), I(s.dsz), h, c, d)

    def value(s, st):
        n = st.ghost.get("nval", 0)
        st.ghost["nval"] = n + 1
        return mk("sym", "value", n, width=8 * s.dsz)

    def key(s, st, k):
        return s.k.local(st, s.kt, I(k))


def observe(s, st, dt, m, hist):
    """the dictionary is the map m"""
    k, C = s.k, s.C
    hs = " ".join(hist) or "new"
    k.tag = hs
    for q in range(4):
        a = st.copy()
        a, r = k.call(a, "buzzdict_rawget", dt, s.key(a, q))
        C.ob("lookup", "key %d after %s" % (q, hs))
        if q not in m:
            if r is not ZERO:
                C.fail("lookup", "absent key", s.at("buzzdict_rawget"), "after %s, key %d is found although it is not in the dictionary" % (hs, q), a.trail)
        elif r is ZERO:
            C.fail("lookup", "present key", s.at("buzzdict_rawget"), "after %s, key %d is not found" % (hs, q), a.trail)
        elif k.access(a, r, s.dsz, C.prog.need("buzzdict_rawget"), {}, "use of a lookup result") and k.e.load(a, r, s.dt) is not m[q]:
            C.fail("lookup", "wrong value", s.at("buzzdict_rawget"), "after %s, key %d gives %s instead of %s" % (hs, q, show(k.e.load(a, r, s.dt)), show(m[q])), a.trail)
    C.ob("size", hs)
    n = k.e.load(st, addc(dt, C.prog.off("buzzdict_s", "size")), "i32")
    if n is not I(len(m)):
        C.fail("size", "size", s.at("buzzdict_set"), "after %s the size is %s, with %d entries" % (hs, show(n), len(m)), st.trail)
    seen = []
    par = mk("sym", "params")

    def fe(st, args, fn, ins):
        k.access(st, args[0], s.ksz, fn, ins, "visit of a key")
        k.access(st, args[1], s.dsz, fn, ins, "visit of a value")
        seen.append((k.e.load(st, args[0], s.kt), k.e.load(st, args[1], s.dt)))
        if args[2] is not par:
            seen.append("params")
        return ZERO
    a, _ = k.call(st, "buzzdict_foreach", dt, k.cb("each", fe), par)
    C.ob("visit", hs)
    if sorted(map(str, seen)) != sorted(str((I(q), v)) for q, v in m.items()):
        C.fail("visit", "foreach", s.at("buzzdict_foreach"), "after %s foreach visits %s, the entries are %s" % (hs, seen, m), a.trail)
    # destroy
    a = st.copy()
    box = k.local(a, "ptr", dt)
    a.ghost["destroyed"] = ()
    a, _ = k.call(a, "buzzdict_destroy", box)
    C.ob("destroy", hs)
    left = set(k.leaks(a)) & set(k.leaks(st)) - st.ghost["mine"]
    if left:
        C.fail("destroy", "released", s.at("buzzdict_destroy"), "after %s, destroy leaves %d block(s) of the dictionary allocated" % (hs, len(left)), a.trail)
    if s.dest:
        g = a.ghost.get("destroyed", ())
        if sorted(map(str, g)) != sorted(str((I(q), v)) for q, v in m.items()):
            C.fail("destroy", "destructor", s.at("buzzdict_destroy"), "after %s, destroy calls the destructor on %s, the entries are %s" % (hs, g, m), a.trail)
    if k.e.load(a, box, "ptr") is not ZERO:
        C.fail("destroy", "handle", s.at("buzzdict_destroy"), "destroy does not reset the handle to NULL", a.trail)


def mine(st, *ts):
    st.ghost["mine"] = st.ghost.get("mine", frozenset()) | set(ts)


def explore(s, st, dt, m, hist, depth):
    observe(s, st, dt, m, hist)
    if depth == 0:
        return
    k, C = s.k, s.C
    for q in range(4):
        # set
        a = st.copy()
        v = s.value(a)
        kp, vp = s.key(a, q), k.local(a, s.dt, v)
        mine(a, kp, vp)
        a.ghost["destroyed"] = ()
        h = hist + ["set(%d)" % q]
        k.tag = " ".join(h)
        a, _ = k.call(a, "buzzdict_set", dt, kp, vp)
        m2 = dict(m)
        m2[q] = v
        if s.dest:
            C.ob("destroy", "replaced by " + k.tag)
            w = ((I(q), m[q]),) if q in m else ()
            if a.ghost.get("destroyed", ()) != w:
                C.fail("destroy", "replaced entry", s.at("buzzdict_set"), "%s: the destructor is called on %s, the replaced entry is %s" % (k.tag, a.ghost.get("destroyed"), w), a.trail)
        # the caller's variables are its own: changing them does not change the dictionary
        a.mem[kp] = (I(99), s.kt)
        a.mem[vp] = (mk("sym", "garbage", width=8 * s.dsz), s.dt)
        explore(s, a, dt, m2, h, depth - 1)
        # remove
        a = st.copy()
        kp = s.key(a, q)
        mine(a, kp)
        a.ghost["destroyed"] = ()
        h = hist + ["remove(%d)" % q]
        k.tag = " ".join(h)
        a, r = k.call(a, "buzzdict_remove", dt, kp)
        C.ob("remove", k.tag)
        if r is not I(1 if q in m else 0):
            C.fail("remove", "result", s.at("buzzdict_remove"), "%s returns %s" % (k.tag, show(r)), a.trail)
        if s.dest:
            w = ((I(q), m[q]),) if q in m else ()
            if a.ghost.get("destroyed", ()) != w:
                C.fail("destroy", "removed entry", s.at("buzzdict_remove"), "%s: the destructor is called on %s, the removed entry is %s" % (k.tag, a.ghost.get("destroyed"), w), a.trail)
        m2 = dict(m)
        m2.pop(q, None)
        if q in m or len(hist) < 2:
            explore(s, a, dt, m2, h, depth - 1)


def during(s):
    """functions called by foreach may remove entries: no released memory is touched, each entry visited at most once per presence"""
    k, C = s.k, s.C
    for keys in ([0], [0, 1], [0, 2], [0, 1, 2], [0, 1, 4], [0, 1, 4, 5, 2]):
        for mode in ("self", "all", "first", "last"):
            st, dt = s.new()
            for q in keys:
                v = s.value(st)
                st, _ = k.call(st, "buzzdict_set", dt, s.key(st, q), k.local(st, s.dt, v))
            cnt = [0]
            k.tag = "foreach over %s removing %s" % (keys, mode)

            def fe(st, args, fn, ins):
                cnt[0] += 1
                k.access(st, args[0], s.ksz, fn, ins, "visit of a key")
                k.access(st, args[1], s.dsz, fn, ins, "visit of a value")
                q = k.e.load(st, args[0], s.kt)
                if q.op != "i":
                    k.bad(st, fn, ins, "foreach passes something that is not a key")
                    return ZERO
                vic = {"self": [q.a[0]], "all": keys, "first": keys[:1], "last": keys[-1:]}[mode]
                for x in vic:
                    s2, _ = k.call(st, "buzzdict_remove", dt, s.key(st, x))
                    for f in ("mem", "facts", "ghost", "zeroed", "counts"):
                        setattr(st, f, getattr(s2, f))
                return ZERO
            a, _ = k.call(st, "buzzdict_foreach", dt, k.cb("each", fe), ZERO)
            C.ob("during", k.tag)
            if cnt[0] > 3 * len(keys):
                C.fail("during", "visits", s.at("buzzdict_foreach"), "%s: %d visits" % (k.tag, cnt[0]), a.trail)


# ---- hash/compare agreement ------------------------------------------------------------
def sites(C):
    """(function, line, hash function, comparison function, key size)"""
    out = []
    for f in C.prog.allfuncs():
        for blk in f.blocks:
            for ins in blk:
                if ins["op"] == "call" and ins["callee"][:2] == ["fn", "buzzdict_new"]:
                    o = ins["ops"]
                    out.append((f, ins.get("line"), o[3], o[4], o[1]))
    return out


OBJ = range(7)


def obj(C, e, st, name, ty):
    """cell holding a pointer to an object of type ty; returns (cell, value address)"""
    E = C.env
    o = mk("obj", name)
    st.facts[o] = (1, INF, frozenset())
    cell = mk("obj", "cell " + name)
    st.facts[cell] = (1, INF, frozenset())
    e.store(st, cell, o, "ptr")
    e.store(st, o, I(ty), "i16")
    return cell, o


def setval(C, e, st, o, ty, v):
    E = C.env
    if ty == E.INT:
        e.store(st, addc(o, E.vi), v, "i32")
    elif ty == E.FLOAT:
        e.store(st, addc(o, E.vf), v, "f32")
    elif ty == E.STRING:
        e.store(st, addc(o, E.sv["sid"]), v[0], "i16")
        e.store(st, addc(o, E.sv["str"]), v[1], "ptr")
    elif ty == E.TABLE:
        e.store(st, addc(o, E.vt), v, "ptr")
    elif ty == E.USERDATA:
        e.store(st, addc(o, E.vu), v, "ptr")


def f2i(t):
    """integer -> float -> integer is the identity on the integers a float represents exactly"""
    if t.op == "f2i" and t.a[0].op == "i2f":
        return t.a[0].a[0]
    if t.op in ("i", "cf") or not isinstance(t, T):
        return t
    if t.op == "lin":
        r = I(t.a[0])
        for a, k in t.a[1]:
            r = add(r, scale(f2i(a), k))
        return r
    a = tuple(f2i(x) if isinstance(x, T) else x for x in t.a)
    return mk(t.op, *a, width=t.width)


def hashes(e, C, fn, cell, st):
    outs = e.run(C.prog.need(fn), [cell], st.copy())
    return {f2i(o.ret) for o in outs}


def objkeys(C, hf, cf, where):
    """comparison of objects: every pair of types"""
    E = C.env
    e = Interp(C.prog, models={})
    # a function of the characters (see the string keys below)
    e.models["buzzdict_strkeyhash"] = lambda e, st, args, fn, ins: (st, mk("call", "strhash", e.load(st, args[0], "ptr"), width=32))
    x = mk("sym", "x", width=32)
    same = {E.INT: x, E.FLOAT: mk("sym", "f"), E.TABLE: mk("sym", "t"), E.USERDATA: mk("sym", "u"),
            E.STRING: (mk("sym", "sid", width=16), mk("sym", "str"))}
    NT = {k: v for k, v in zip(OBJ, E.TN)}
    for ta in OBJ:
        for tb in OBJ:
            st = State()
            ca, oa = obj(C, e, st, "a", ta)
            cb, ob_ = obj(C, e, st, "b", tb)
            # hash of each alone: types that are refused cannot be keys
            h1 = hashes(e, C, hf, ca, st)
            h2 = hashes(e, C, hf, cb, st)
            if not h1 or not h2:
                continue
            outs = e.run(C.prog.need(cf), [ca, cb], st.copy())
            for o in outs:
                z = o.st.ev(icmp("eq", o.ret, ZERO))
                if z is False:
                    continue
                C.ob("keys", "%s/%s: %s and %s keys that compare as equal" % (hf, cf, NT[ta], NT[tb]))
                s2 = o.st.copy()
                if ta == tb:
                    if ta in same:
                        setval(C, e, s2, oa, ta, same[ta])
                        setval(C, e, s2, ob_, tb, same[tb])
                elif {ta, tb} == {E.INT, E.FLOAT}:
                    for t, q in ((ta, oa), (tb, ob_)):
                        setval(C, e, s2, q, t, x if t == E.INT else mk("i2f", x))
                else:
                    C.fail("keys", "%s %s/%s" % (cf, NT[min(ta, tb)], NT[max(ta, tb)]), where,
                           "a %s key and a %s key can compare as equal, but nothing makes %s() give them the same bucket" % (NT[ta], NT[tb], hf), o.st.trail)
                    continue
                s2.facts = {k: v for k, v in s2.facts.items() if k.op in ("obj",)}
                s2.bools = {}
                ha, hb = hashes(e, C, hf, ca, s2), hashes(e, C, hf, cb, s2)
                if ha != hb or len(ha) != 1:
                    C.fail("keys", "%s %s/%s" % (hf, NT[min(ta, tb)], NT[max(ta, tb)]), where,
                           "equal %s and %s keys hash to %s and %s" % (NT[ta], NT[tb], [show(h) for h in ha], [show(h) for h in hb]), o.st.trail)
    C.absorb(e)


def intkeys(C, hf, cf, w, where):
    e = Interp(C.prog, models={})
    st = State()
    a, b = mk("obj", "ka"), mk("obj", "kb")
    for t in (a, b):
        st.facts[t] = (1, INF, frozenset())
    x, y = mk("sym", "x", width=w), mk("sym", "y", width=w)
    e.store(st, a, x, "i%d" % w)
    e.store(st, b, y, "i%d" % w)
    eq = 0
    for o in e.run(C.prog.need(cf), [a, b], st.copy()):
        z = o.st.ev(icmp("eq", o.ret, ZERO))
        C.ob("keys", "%s: equal exactly for the same key" % cf)
        d = o.st.ev(icmp("eq", x, y))
        if z is True:
            eq += 1
            if d is not True:
                C.fail("keys", cf, where, "%s() calls different keys equal" % cf, o.st.trail)
            ha, hb = hashes(e, C, hf, a, o.st), hashes(e, C, hf, b, o.st)
            C.ob("keys", "%s: same bucket for the same key" % hf)
            if len(ha) != 1 or len(hb) != 1 or o.st.ev(icmp("eq", list(ha)[0], list(hb)[0])) is not True:
                e.store(o.st, b, x, "i%d" % w)
                if hashes(e, C, hf, b, o.st) != ha:
                    C.fail("keys", hf, where, "equal keys hash to %s and %s" % ([show(h) for h in ha], [show(h) for h in hb]), o.st.trail)
        elif z is None or d is not False:
            C.fail("keys", cf, where, "%s() returns %s for %s keys" % (cf, show(o.ret), "equal" if d else "possibly equal"), o.st.trail)
    if not eq:
        C.fail("keys", cf, where, "%s() never calls two keys equal" % cf)
    C.absorb(e)


def strkeys(C, hf, cf, where):
    k = Conc(C)
    k.tag = "%s/%s" % (hf, cf)
    words = [b"", b"a", b"b", b"ab", b"ba", b"aa", b"abc", b"\xc3\xa9", b"poses"] + [b"x" * 70 + c for c in (b"", b"a", b"b")]
    for wa in words:
        for wb in words:
            st = State()
            a, b = (k.local(st, "ptr", k.newstr(st, w)) for w in (wa, wb))
            s1, r = k.call(st, cf, a, b)
            C.ob("keys", "%s on %r and %r" % (cf, wa, wb))
            if (r is ZERO) != (wa == wb):
                C.fail("keys", cf, where, "%s() returns %s for the strings %r and %r" % (cf, show(r), wa, wb), s1.trail)
            if wa == wb:
                _, ha = k.call(st, hf, a)
                _, hb = k.call(st, hf, b)
                if ha is not hb:
                    C.fail("keys", hf, where, "two copies of %r hash to %s and %s" % (wa, show(ha), show(hb)), s1.trail)
    C.absorb(k.e)


def keys(C):
    done = set()
    for f, line, h, c, ks in sites(C):
        where = "%s:%s (%s)" % (f.file, line, f.name)
        if h[0] != "fn" or c[0] != "fn":
            continue      # a copy of an existing dictionary takes over its functions
        C.ob("keys", "%s: %s with %s" % (where, h[1], c[1]))
        k = (h[1], c[1])
        if k in done:
            continue
        done.add(k)
        hf, cf = C.prog.func(h[1], f.mod), C.prog.func(c[1], f.mod)
        if hf is None or cf is None:
            raise AnalysisError("functions of the dictionary created at %s not found" % where)
        kind = keykind(C, hf)
        n = ks[1] if ks[0] == "i" else None
        if kind == "obj":
            objkeys(C, h[1], c[1], where)
        elif kind == "str":
            strkeys(C, h[1], c[1], where)
        elif kind in (16, 32):
            intkeys(C, h[1], c[1], kind, where)
            C.ob("keys", "%s: key size" % where)
            if n is not None and n * 8 != kind:
                C.fail("keys", "key size %s" % h[1], where, "keys of %s byte(s) are hashed as %d-bit integers" % (n, kind))
        else:
            C.notes.append("The keys of the dictionary created at %s are structures; their functions are the subject of the debug-symbol property." % where)


def keykind(C, f):
    """what the key pointer of a hash function points at: the first thing loaded through it"""
    for blk in f.blocks:
        for ins in blk:
            if ins["op"] == "load" and ins["ops"][0] == ["a", 0]:
                if ins["ty"] in ("i16", "i32"):
                    return int(ins["ty"][1:])
                # a pointer: to characters or to an object
                e = Interp(C.prog, models={})
                k = Conc(C)
                st = State()
                k.tag = "probe"
                fs = dict(C.findings)
                rl, smp = dict(C.rules), list(C.samples)
                try:
                    s2, r = k.trycall(st, f.name, k.local(st, "ptr", k.newstr(st, b"abcdefghijklmnopqrstuvwxyz" * 4)))
                    st2 = State()
                    s3, r3 = k.trycall(st2, f.name, k.local(st2, "ptr", k.newstr(st2, b"abcdefghijklmnopqrstuvwxyz" * 3)))
                    isstr = r is not None and r3 is not None and r is not r3 and set(C.findings) == set(fs)
                except AnalysisError:
                    isstr = False
                C.findings.clear()
                C.findings.update(fs)
                C.rules.clear()
                C.rules.update(rl)
                C.samples[:] = smp
                if isstr:
                    return "str"
                st = State()
                c, o = obj(C, e, st, "p", C.env.INT)
                try:
                    outs = e.run(f, [c], st)
                except AnalysisError:
                    return None
                v = e.load(outs[0].st, addc(o, C.env.vi), "i32") if outs else None
                if outs and any(v in atoms(x.ret) for x in outs):
                    return "obj"
                return None
    return None


def run(C):
    deep = C.tier == "thorough"
    for ksz, dsz, b, dest, depth in ((2, 8, 3, True, 3), (8, 8, 2, False, 3), (4, 2, 1, True, 3), (8, 8, 10, True, 2), (2, 1, 3, False, 2)):
        s = D(C, ksz, dsz, b, dest)
        st, dt = s.new()
        mine(st)
        explore(s, st, dt, {}, [], depth + (1 if deep else 0))
        during(s)
        C.absorb(s.k.e)
    keys(C)
    C.assume("allocation never fails; fewer than 2^31 entries; number keys are not NaN and integer keys mixed with float keys are below 2^24 in magnitude")


MINIMA = {"lookup": 500, "size": 200, "visit": 200, "remove": 100, "destroy": 200, "during": 20, "keys": 40, "memory": 1000}
