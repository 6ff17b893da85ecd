"""Shape analysis of buzzstrman.c on top of the dictionary code it uses (interpreted, not modelled).  Registrations of
several strings in several orders (so that the identifier tree takes different shapes), with and without protection,
followed by garbage collections that mark every subset of the strings in ascending and descending order, are
interpreted; after each step the identifiers and strings are compared with a mathematical bijection.  Identifier
exhaustion is covered by starting the counter just below its wrap-around.  Every memory access and release is an obligation."""
import itertools
from bzsa.terms import *
from bzsa.absint import State
from bzsa.conc import Conc

WORDS = [b"alpha", b"b", b"gamma", b"dd", b"e9", b"zeta_6", b"g"]


class S:
    def __init__(s, C):
        s.C, s.k = C, Conc(C)

    def at(s, fn):
        f = s.C.prog.need(fn)
        return "%s:%s (%s)" % (f.file, f.line, fn)

    def new(s):
        st = State()
        s.k.tag = "new"
        return s.k.call(st, "buzzstrman_new")

    def register(s, st, sm, w, prot, m):
        """m: word -> (id, protected); returns the new state and map"""
        k, C = s.k, s.C
        st = st.copy()
        p = k.newstr(st, w)
        a, r = k.call(st, "buzzstrman_register", sm, p, I(prot))
        C.ob("register", "%s: register %s" % (k.tag, w.decode()))
        m2 = dict(m)
        if r is None or r.op != "i":
            C.fail("register", "identifier", s.at("buzzstrman_register"), "%s: the identifier of %r is not determined" % (k.tag, w), a.trail)
            return a, m
        r = r.a[0] & 0xFFFF
        if w in m:
            if r != m[w][0]:
                C.fail("register", "same string", s.at("buzzstrman_register"), "%s: %r had identifier %d and now gets %d" % (k.tag, w, m[w][0], r), a.trail)
            m2[w] = (r, m[w][1] or bool(prot))
        else:
            for x, (i, _) in m.items():
                if i == r:
                    C.fail("register", "identifier in use", s.at("buzzstrman_register"), "%s: %r gets identifier %d, which belongs to %r" % (k.tag, w, r, x), a.trail)
            m2[w] = (r, bool(prot))
        # the caller's copy is its own
        k.kill(a, p)
        return a, m2

    def observe(s, st, sm, m, gone=()):
        k, C = s.k, s.C
        for w, (i, _) in m.items():
            a, r = k.call(st, "buzzstrman_get", sm, I(i))
            C.ob("lookup", "%s: string %d" % (k.tag, i))
            if r is ZERO or r is None:
                C.fail("lookup", "lost string", s.at("buzzstrman_get"), "%s: identifier %d of %r is no longer known" % (k.tag, i, w), a.trail)
            elif k.access(a, r, 1, C.prog.need("buzzstrman_get"), {}, "use of a string") and k.string(a, r) != w:
                C.fail("lookup", "wrong string", s.at("buzzstrman_get"), "%s: identifier %d gives %r instead of %r" % (k.tag, i, k.string(a, r), w), a.trail)
        for w, i in gone:
            a, r = k.call(st, "buzzstrman_get", sm, I(i))
            C.ob("collect", "%s: string %d released" % (k.tag, i))
            if r is not ZERO:
                C.fail("collect", "kept string", s.at("buzzstrman_gc_prune"), "%s: %r was neither marked nor protected but is still there" % (k.tag, w), a.trail)

    def collect(s, st, sm, m, marks):
        k = s.k
        st, _ = k.call(st, "buzzstrman_gc_clear", sm)
        for w in marks:
            st, _ = k.call(st, "buzzstrman_gc_mark", sm, I(m[w][0]))
        st, _ = k.call(st, "buzzstrman_gc_prune", sm)
        keep = {w: v for w, v in m.items() if v[1] or w in marks}
        gone = [(w, v[0]) for w, v in m.items() if w not in keep]
        s.observe(st, sm, keep, gone)
        return st, keep, gone

    def destroy(s, st, sm):
        k, C = s.k, s.C
        before = set(k.leaks(st))
        a = st.copy()
        box = k.local(a, "ptr", sm)
        a, _ = k.call(a, "buzzstrman_destroy", box)
        C.ob("destroy", k.tag)
        left = before & set(k.leaks(a))
        if left:
            C.fail("destroy", "released", s.at("buzzstrman_destroy"), "%s: destroy leaves %d block(s) allocated" % (k.tag, len(left)), a.trail)


def orders(n, deep):
    base = list(range(n))
    o = [base, base[::-1], base[n // 2:] + base[:n // 2], [3, 1, 4, 0, 2, 5, 6][:], [2, 4, 0, 3, 1, 6, 5]]
    out = []
    for x in o:
        x = [i for i in x if i < n]
        if x not in out:
            out.append(x)
    if deep:
        for x in list(itertools.permutations(base))[::37]:
            if list(x) not in out:
                out.append(list(x))
    return out


def run(C):
    deep = C.tier == "thorough"
    n = 6 if deep else 5
    for oi, order in enumerate(orders(n, deep)):
        for prot in ((), (order[0],), (order[1], order[-1])):
            s = S(C)
            st, sm = s.new()
            m = {}
            s.k.tag = "registration in order %s, protected %s" % (order, list(prot))
            for i in order:
                st, m = s.register(st, sm, WORDS[i], 1 if i in prot else 0, m)
                s.observe(st, sm, m)
            # registering again changes nothing
            for i in order:
                st, m = s.register(st, sm, WORDS[i], 0, m)
            s.observe(st, sm, m)
            s.destroy(st, sm)
            for bits in range(1 << n):
                marks = [WORDS[i] for i in range(n) if bits >> i & 1]
                ms = sorted(marks, key=lambda w: m[w][0])
                for mk_ in (ms, ms[::-1]) if len(ms) > 1 and (deep or not prot) else (ms,):
                    s.k.tag = "registration in order %s, protected %s, then a collection marking %s" % (order, list(prot), [w.decode() for w in mk_])
                    a, keep, gone = s.collect(st, sm, m, mk_)
                if bits % 5 == 0:
                    # released strings can come back, and the survivors are still what they were
                    b, m2 = a, keep
                    for w, _ in gone:
                        b, m2 = s.register(b, sm, w, 0, m2)
                    s.observe(b, sm, m2)
                    # protecting a known string later keeps it from then on
                    if m2:
                        w0 = sorted(m2)[0]
                        b, m2 = s.register(b, sm, w0, 1, m2)
                    b, m3, gone = s.collect(b, sm, m2, [])
                    s.destroy(b, sm)
                # a marked string twice, and an identifier nobody has
                if bits == (1 << n) - 1:
                    s.k.tag = "collection with repeated and unknown marks"
                    b, _ = s.k.call(st, "buzzstrman_gc_clear", sm)
                    for w in ms + ms:
                        b, _ = s.k.call(b, "buzzstrman_gc_mark", sm, I(m[w][0]))
                    b, _ = s.k.call(b, "buzzstrman_gc_mark", sm, I(4711))
                    b, _ = s.k.call(b, "buzzstrman_gc_prune", sm)
                    s.observe(b, sm, m)
            C.absorb(s.k.e)
    # the identifier counter wraps around
    off = C.prog.off("buzzstrman_s", "maxsid")
    for start in (65533, 65534, 65535):
        s = S(C)
        st, sm = s.new()
        m = {}
        s.k.tag = "identifier counter at %d" % start
        for w in WORDS[:3]:
            st, m = s.register(st, sm, w, 0, m)
        if start in [i for i, _ in m.values()]:
            continue
        st.mem[addc(sm, off)] = (I(start), "i16")
        for w in WORDS[3:]:
            st, m = s.register(st, sm, w, 0, m)
            s.observe(st, sm, m)
        for keep in ([], WORDS[:2], WORDS[3:5]):
            a, m2, gone = s.collect(st, sm, m, keep)
            for w, _ in gone:
                a, m2 = s.register(a, sm, w, 0, m2)
                s.observe(a, sm, m2)
        C.absorb(s.k.e)
    C.assume("fewer than 65536 different strings are alive at the same time; allocation never fails")


MINIMA = {"register": 100, "lookup": 1000, "collect": 500, "destroy": 20, "memory": 10000}
