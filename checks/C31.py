"""Shape analysis of buzzset.c.  Sets are built by inserting keys in every order (hence trees of every shape with that
many nodes), then elements are removed one after the other, each of them first, absent ones included.  The comparison function is
abstract (an order on the keys), the payload of the elements is opaque.  After each operation size, lookups and visits are
compared with a mathematical set; the destructor must be called exactly once, on the element that goes away; every memory access
and release is an obligation, and destroying the set must release all its memory."""
import itertools
from bzsa.terms import *
from bzsa.absint import State
from bzsa.conc import Conc


class SetC:
    def __init__(s, C, destroy):
        s.C, s.k, s.destroy = C, Conc(C), destroy
        s.osize = C.prog.off("buzzset_s", "size")
        s.sty = "i%d" % (8 * [f["size"] for f in C.prog.di["buzzset_s"]["fields"] if f["name"] == "size"][0])

    def at(s, fn):
        f = s.C.prog.need(fn)
        return "%s:%s (%s)" % (f.file, f.line, fn)

    def key(s, st, p, fn, ins, what):
        if not s.k.access(st, p, 16, fn, ins, what):
            return None
        return s.k.e.load(st, st.simp(p), "i64")

    def pay(s, st, p):
        return s.k.e.load(st, addc(st.simp(p), 8), "i64")

    def new(s):
        k = s.k

        def cmp(st, args, fn, ins):
            a, b = (s.key(st, x, fn, ins, "comparison of an element") for x in args[:2])
            if a is None or b is None or a.op != "i" or b.op != "i":
                return I(0)
            return I((a.a[0] > b.a[0]) - (a.a[0] < b.a[0]))

        def dst(st, args, fn, ins):
            x = s.key(st, args[0], fn, ins, "destructor call on an element")
            st.ghost["destroyed"] = st.ghost.get("destroyed", ()) + ((x, s.pay(st, args[0])),)
            return ZERO

        def vis(st, args, fn, ins):
            x = s.key(st, args[0], fn, ins, "visit of an element")
            st.ghost["visited"] = st.ghost.get("visited", ()) + ((x, s.pay(st, args[0])),)
            if args[1] is not s.param:
                s.C.fail("visit", "parameter", s.at("buzzset_foreach"), "the visiting function is not given the caller's parameter", st.trail)
            return ZERO
        st = State()
        s.cmp, s.dst, s.vis = k.cb("cmp", cmp), k.cb("destroy", dst), k.cb("visit", vis)
        s.param = mk("sym", "param")
        k.tag = "new set"
        return k.call(st, "buzzset_new", I(16), s.cmp, s.dst if s.destroy else ZERO)

    def elem(s, st, key, pay):
        t = s.k.alloc(st, 16)
        st.ghost["args"] = st.ghost.get("args", frozenset()) | {t}
        st.mem[t] = (I(key), "i64")
        st.mem[addc(t, 8)] = (pay, "i64")
        return t

    def gone(s, st, want, inst, fn):
        if not s.destroy:
            return
        got = st.ghost.get("destroyed", ())
        st.ghost["destroyed"] = ()
        s.C.ob("destructor", inst)
        w = sorted((str(I(a)), str(b)) for a, b in want)
        if sorted((str(a), str(b)) for a, b in got) != w:
            s.C.fail("destructor", "%s destructor" % fn, s.at(fn), "%s: the destructor is called on the keys %s instead of %s" % (
                inst, [show(a) for a, _ in got], [a for a, _ in want]), st.trail)

    def observe(s, st, S, m, absent, inst, fn):
        k, C = s.k, s.C
        C.ob("contents", inst)
        n = k.e.load(st, addc(S, s.osize), s.sty)
        if n is not I(len(m)):
            C.fail("contents", "%s size" % fn, s.at(fn), "%s: the size is %s instead of %d" % (inst, show(n), len(m)), st.trail)
        for key in sorted(list(m) + list(absent)):
            a = st.copy()
            p = s.elem(a, key, I(0))
            a, r = k.call(a, "buzzset_find", S, p)
            C.ob("lookup", "%s: find %d" % (inst, key))
            if key in m:
                if r is ZERO or not k.access(a, r, 16, C.prog.need("buzzset_find"), {}, "use of the found element") or \
                        k.e.load(a, a.simp(r), "i64") is not I(key) or s.pay(a, r) is not m[key]:
                    C.fail("lookup", "%s: lost element" % fn, s.at(fn), "%s: looking up %d does not give the element that was inserted" % (inst, key), a.trail)
            elif r is not ZERO:
                C.fail("lookup", "%s: absent element" % fn, s.at(fn), "%s: looking up %d, which is not in the set, gives something" % (inst, key), a.trail)
        a, _ = k.call(st, "buzzset_foreach", S, s.vis, s.param)
        C.ob("visit", inst)
        got = a.ghost.get("visited", ())
        if sorted((str(x), str(y)) for x, y in got) != sorted((str(I(x)), str(y)) for x, y in m.items()):
            C.fail("visit", "%s visit" % fn, s.at("buzzset_foreach"), "%s: the visited keys are %s instead of %s" % (inst, [show(x) for x, _ in got], sorted(m)), a.trail)

    def insert(s, st, S, key, m):
        a = st.copy()
        n = a.ghost.get("npay", 0)
        a.ghost["npay"] = n + 1
        pay = mk("sym", "pay", n, width=64)
        p = s.elem(a, key, pay)
        a, _ = s.k.call(a, "buzzset_insert", S, p)
        # the caller's copy is its own
        s.k.kill(a, p)
        a.ghost.pop(("size", p), None)
        m2 = dict(m)
        m2.setdefault(key, pay)
        s.gone(a, [], s.k.tag, "buzzset_insert")
        return a, m2

    def remove(s, st, S, key, m, own=False):
        a = st.copy()
        if own:
            # by the element found in the set itself
            p = s.elem(a, key, I(0))
            a, q = s.k.call(a, "buzzset_find", S, p)
            s.k.kill(a, p)
            a.ghost.pop(("size", p), None)
            p = q
        else:
            p = s.elem(a, key, I(0))
        a, _ = s.k.call(a, "buzzset_remove", S, p)
        m2 = dict(m)
        x = m2.pop(key, None)
        s.gone(a, [(key, x)] if x is not None else [], s.k.tag, "buzzset_remove")
        return a, m2

    def finish(s, st, S, m):
        k, C = s.k, s.C
        a = st.copy()
        box = k.local(a, "ptr", S)
        before = set(k.leaks(st)) - st.ghost.get("args", frozenset())
        a, _ = k.call(a, "buzzset_destroy", box)
        s.gone(a, list(m.items()), k.tag + ", then destroy", "buzzset_destroy")
        C.ob("release", k.tag)
        left = [x for x in k.leaks(a) if x in before]
        if left:
            C.fail("release", "leak", s.at("buzzset_destroy"), "%s, then destroy: %d block(s) of the set are never released" % (k.tag, len(left)), a.trail)



def run(C):
    deep = C.tier == "thorough"
    n = 5 if deep else 4
    orders = list(itertools.permutations(range(n)))
    for x in ((3, 1, 5, 0, 2, 4, 6), (0, 6, 1, 5, 2, 4, 3), (5, 1, 0, 3, 2, 4, 6), (1, 0, 5, 3, 2, 4, 6)):
        orders.append(x)
    for destroy in (True, False):
        for order in orders if destroy or deep else orders[::5]:
            s = SetC(C, destroy)
            st, S = s.new()
            m = {}
            N = len(order)
            keys = [10 * x for x in order]
            absent = [-5, 10 * N // 2 + 5, 10 * N + 5]
            s.k.tag = "empty set"
            s.observe(st, S, m, absent, s.k.tag, "buzzset_new")
            b, mb = s.remove(st, S, keys[0], m)
            s.observe(b, S, mb, absent, s.k.tag + ", removal of an absent key", "buzzset_remove")
            for i, key in enumerate(keys):
                s.k.tag = "insertion of %s" % keys[:i + 1]
                st, m = s.insert(st, S, key, m)
            s.observe(st, S, m, absent, s.k.tag, "buzzset_insert")
            s.finish(st, S, m)
            for key in keys:
                s.k.tag = "insertion of %s, then of %d again" % (keys, key)
                a, m2 = s.insert(st, S, key, m)
                s.observe(a, S, m2, absent, s.k.tag, "buzzset_insert")
            for key in keys + absent[1:2]:
                for own in (False, True) if key in m else (False,):
                    s.k.tag = "insertion of %s, then removal of %d%s" % (keys, key, " as found in the set" if own else "")
                    a, m2 = s.remove(st, S, key, m, own)
                    s.observe(a, S, m2, absent + [key], s.k.tag, "buzzset_remove")
                    s.finish(a, S, m2)
                    for key2 in (list(m2) if N < 6 or deep else []):
                        s.k.tag = "insertion of %s, then removal of %d and %d" % (keys, key, key2)
                        b, m3 = s.remove(a, S, key2, m2)
                        s.observe(b, S, m3, absent + [key, key2], s.k.tag, "buzzset_remove")
                        s.finish(b, S, m3)
                    if not own and key in m:
                        s.k.tag = "insertion of %s, then removal and insertion of %d" % (keys, key)
                        b, m3 = s.insert(a, S, key, m2)
                        s.observe(b, S, m3, absent, s.k.tag, "buzzset_insert")
            C.absorb(s.k.e)
    C.assume("the comparison function is a total order; allocation never fails")


MINIMA = {"contents": 300, "lookup": 1000, "visit": 300, "destructor": 200, "release": 200, "memory": 10000}
