"""Shape analysis of buzzdarray.c.  Every public operation is interpreted on arrays of every size up to a bound and
at every position (one past the end and beyond included), with opaque element values, for element sizes of 1, 2, 4, 8 and 16 bytes,
directly after the operations that grow and shrink the array.  The abstract contents after each
operation are compared with those of a mathematical sequence; all memory accesses, copies and releases are obligations
(live, in bounds, initialised, released once); the element destructor must be called exactly once, on the element that goes away."""
from bzsa.terms import *
from bzsa.absint import State
from bzsa.conc import Conc, SZ

CELL = {1: ["i8"], 2: ["i16"], 4: ["i32"], 8: ["i64"], 16: ["i64", "i64"]}


class DA:
    def __init__(s, C, es, destroy):
        s.C, s.es, s.destroy = C, es, destroy
        s.k = Conc(C)
        s.off = {f: C.prog.off("buzzdarray_s", f) for f in ("data", "size", "elem_size", "capacity")}
        s.sty = {f["name"]: "i%d" % (8 * f["size"]) for f in C.prog.di["buzzdarray_s"]["fields"] if f.get("size") in (4, 8)}
        s.n = 0

    # ---- helpers
    def val(s, st):
        """a new opaque element"""
        n = st.ghost.get("nval", 0)
        st.ghost["nval"] = n + 1
        out = []
        for j, c in enumerate(CELL[s.es]):
            out.append(mk("sym", "elem", n, j, width=8 * SZ[c] if SZ[c] <= 8 else None))
        return tuple(out)

    def put(s, st, v):
        t = s.k.alloc(st, s.es)
        o = 0
        for x, c in zip(v, CELL[s.es]):
            st.mem[addc(t, o)] = (x, c)
            o += SZ[c]
        return t

    def get(s, st, p):
        out, o = [], 0
        for c in CELL[s.es]:
            out.append(s.k.e.load(st, addc(p, o), c))
            o += SZ[c]
        return tuple(out)

    def size(s, st, da):
        return s.k.e.load(st, addc(da, s.off["size"]), "i64")

    def content(s, st, da):
        n = s.size(st, da)
        if n.op != "i" or not 0 <= n.a[0] < 100:
            return None
        d = s.k.e.load(st, addc(da, s.off["data"]), "ptr")
        return [s.get(st, addc(d, i * s.es)) for i in range(n.a[0])]

    def ok(s, rule, inst, st, da, want, where):
        s.C.ob(rule, "%s, elements of %d byte(s)" % (inst, s.es))
        got = s.content(st, da)
        if got != want:
            s.C.fail(rule, inst.split(" on ")[0], where, "%s (elements of %d bytes): the array holds %s, expected %s" % (
                inst, s.es, s.sh(got), s.sh(want)), st.trail)
            return False
        d = st.ghost.get("destroyed", ())
        return True

    def sh(s, l):
        if l is None:
            return "an undetermined number of elements"
        return "[" + ", ".join("+".join(show(x) for x in v) for v in l) + "]"

    def destroyed(s, rule, inst, st, want, where):
        if not s.destroy:
            return
        s.C.ob(rule, "destructor calls, %s" % inst)
        got = st.ghost.get("destroyed", ())
        if sorted(map(str, got)) != sorted(map(str, want)):
            s.C.fail(rule, inst.split(" on ")[0] + " destructor", where, "%s: the destructor is called on %s, expected %s" % (inst, s.sh(got), s.sh(want)), st.trail)
        st.ghost["destroyed"] = ()

    def new(s, cap=1):
        st = State()
        cb = ZERO
        if s.destroy:
            def h(st, args, fn, ins):
                p = args[1]
                s.k.access(st, p, s.es, fn, ins, "destructor call on element")
                st.ghost["destroyed"] = st.ghost.get("destroyed", ()) + (s.get(st, p),)
                return ZERO
            cb = s.k.cb("destroy", h)
            from bzsa.absint import INF
            st.facts[cb] = (1, INF, frozenset())
        return s.k.call(st, "buzzdarray_new", I(cap), I(s.es), cb)

    def where(s, fn):
        f = s.C.prog.need(fn)
        return "%s:%s (%s)" % (f.file, f.line, fn)


def explore(s, st, da, L, depth, ops):
    """every operation at every position from this shape"""
    k = s.k
    n = len(L)
    for pos in list(range(n + 1)) + [n + 3]:
        # insert
        if n < ops["max"]:
            k.tag = "insert at %d of %d" % (pos, n)
            a = st.copy()
            v = s.val(a)
            p = s.put(a, v)
            a, _ = k.call(a, "buzzdarray_insert", da, I(pos), p)
            i = min(pos, n)
            want = L[:i] + [v] + L[i:]
            s.ok("insert", "insert at %d on %d element(s)" % (pos, n), a, da, want, s.where("buzzdarray_insert"))
            s.destroyed("insert", "insert at %d on %d element(s)" % (pos, n), a, (), s.where("buzzdarray_insert"))
            if depth > 0 and (pos == n or n < 4 or pos in (0, 1)):
                explore(s, a, da, want, depth - 1, ops)
        # remove
        k.tag = "remove at %d of %d" % (pos, n)
        a, _ = k.call(st, "buzzdarray_remove", da, I(pos))
        want = L[:pos] + L[pos + 1:]
        s.ok("remove", "remove at %d on %d element(s)" % (pos, n), a, da, want, s.where("buzzdarray_remove"))
        s.destroyed("remove", "remove at %d on %d element(s)" % (pos, n), a, L[pos:pos + 1], s.where("buzzdarray_remove"))
        if depth > 0 and pos in (0, n - 1):
            explore(s, a, da, want, depth - 1, ops)
        # set
        k.tag = "set at %d of %d" % (pos, n)
        a = st.copy()
        v = s.val(a)
        p = s.put(a, v)
        a, _ = k.call(a, "buzzdarray_set", da, I(pos), p)
        want = L[:pos] + [v] + L[pos + 1:] if pos < n else L + [v]
        s.ok("set", "set at %d on %d element(s)" % (pos, n), a, da, want, s.where("buzzdarray_set"))
        # makeslot
        k.tag = "makeslot at %d of %d" % (pos, n)
        a, r = k.call(st, "buzzdarray_makeslot", da, I(pos))
        i = min(pos, n)
        d = s.k.e.load(a, addc(da, s.off["data"]), "ptr")
        s.C.ob("insert", "makeslot at %d of %d" % (pos, n))
        g = s.content(a, da)
        if r is None or sub(r, addc(d, i * s.es)) is not ZERO or g is None or g[:i] + g[i + 1:] != L:
            s.C.fail("insert", "makeslot", s.where("buzzdarray_makeslot"), "makeslot(%d) on %d elements does not open the slot at %d between its neighbours" % (pos, n, i), a.trail)
        elif s.k.access(a, r, s.es, C_FN(s), {"line": 0}, "use of the slot"):
            pass
    # pop on an empty array must leave it alone (buzzdarray_pop passes size-1)
    # clear
    for cap in (1, 2, 8):
        k.tag = "clear of %d" % n
        a, _ = k.call(st, "buzzdarray_clear", da, I(cap))
        s.ok("clear", "clear on %d element(s)" % n, a, da, [], s.where("buzzdarray_clear"))
        s.destroyed("clear", "clear on %d element(s)" % n, a, L, s.where("buzzdarray_clear"))
        w = []
        for _ in range(3):
            v = s.val(a)
            p = s.put(a, v)
            a, _ = k.call(a, "buzzdarray_insert", da, I(len(w)), p)
            w.append(v)
        s.ok("clear", "three pushes after clear(%d) on %d element(s)" % (cap, n), a, da, w, s.where("buzzdarray_clear"))
        if depth:
            break
    # clone: same contents, independent storage
    k.tag = "clone of %d" % n
    a, c = k.call(st, "buzzdarray_clone", da)
    s.ok("clone", "clone on %d element(s)" % n, a, c, L, s.where("buzzdarray_clone"))
    s.ok("clone", "original after clone on %d element(s)" % n, a, da, L, s.where("buzzdarray_clone"))
    v = s.val(a)
    p = s.put(a, v)
    b, _ = k.call(a, "buzzdarray_insert", c, I(n), p)
    s.ok("clone", "push on the clone on %d element(s)" % n, b, c, L + [v], s.where("buzzdarray_clone"))
    s.ok("clone", "original after a push on the clone on %d element(s)" % n, b, da, L, s.where("buzzdarray_clone"))
    if n:
        b, _ = k.call(a, "buzzdarray_set", c, I(0), p)
        s.ok("clone", "original after a write to the clone on %d element(s)" % n, b, da, L, s.where("buzzdarray_clone"))
    # a clone can be emptied, refilled and destroyed on its own
    w = list(L)
    while w:
        k.tag = "remove from a clone of %d" % n
        a, _ = k.call(a, "buzzdarray_remove", c, I(len(w) - 1))
        w.pop()
        s.ok("clone", "remove from the clone on %d element(s)" % n, a, c, w, s.where("buzzdarray_clone"))
    for _ in range(2):
        v = s.val(a)
        k.tag = "push on an emptied clone of %d" % n
        b, _ = k.trycall(a, "buzzdarray_insert", c, I(len(w)), s.put(a, v))
        if b is None:
            s.C.ob("clone", k.tag)
            s.C.fail("clone", "emptied clone", s.where("buzzdarray_clone"), "a clone of %d elements that was emptied cannot grow: the next push aborts" % n, a.trail)
            break
        a = b
        w.append(v)
        s.ok("clone", "push on the emptied clone on %d element(s)" % n, a, c, w, s.where("buzzdarray_clone"))
    k.tag = "destroy of a clone of %d" % n
    b = a.copy()
    b, _ = k.call(b, "buzzdarray_destroy", k.local(b, "ptr", c))
    s.ok("clone", "original after the clone is destroyed on %d element(s)" % n, b, da, L, s.where("buzzdarray_clone"))
    # foreach: in order, each once
    seen = []
    par = mk("sym", "params")

    def fe(st, args, fn, ins):
        seen.append((args[0], s.get(st, args[1]), args[2]))
        return ZERO
    cb = k.cb("each", fe)
    k.tag = "foreach on %d" % n
    a, _ = k.call(st, "buzzdarray_foreach", da, cb, par)
    s.C.ob("visit", "foreach on %d element(s)" % n)
    if seen != [(I(i), L[i], par) for i in range(n)]:
        s.C.fail("visit", "foreach", s.where("buzzdarray_foreach"), "foreach on %d elements calls the function with %s" % (n, [(show(i), s.sh([v])) for i, v, _ in seen]), a.trail)
    # find: the first match, or the size
    for m in [None] + [frozenset([i, j]) for i in range(n) for j in range(i, n)]:
        k.tag = "find on %d" % n
        key = mk("sym", "key")

        def cmpf(st, args, fn, ins):
            v = s.get(st, args[1])
            s.C.ob("visit", "find passes (key, element)")
            if args[0] is not key or v not in L:
                s.C.fail("visit", "find arguments", s.where("buzzdarray_find"), "the comparison function is not called with (key, element)", st.trail)
                return ONE
            return ZERO if m and any(L[i] == v for i in m) else I((L.index(v) % 2) * 2 - 1)
        a, r = k.call(st, "buzzdarray_find", da, k.cb("cmp", cmpf), key)
        s.C.ob("visit", "find on %d element(s)" % n)
        if r is not I(min(m) if m else n):
            s.C.fail("visit", "find", s.where("buzzdarray_find"), "find on %d elements whose matches are %s returns %s" % (n, sorted(m) if m else "none", show(r) if r else r), a.trail)
    # destroy: everything goes away once
    k.tag = "destroy of %d" % n
    a = st.copy()
    box = k.local(a, "ptr", da)
    keep = set()
    a, _ = k.call(a, "buzzdarray_destroy", box)
    s.destroyed("destroy", "destroy on %d element(s)" % n, a, L, s.where("buzzdarray_destroy"))
    s.C.ob("destroy", "destroy on %d element(s)" % n)
    own = reach(s, st, da)
    left = [t for t in own if a.ghost.get(("size", t)) is not None]
    if left:
        s.C.fail("destroy", "released", s.where("buzzdarray_destroy"), "destroy on %d elements leaves %d of the array's blocks allocated" % (n, len(left)), a.trail)
    if s.k.e.load(a, box, "ptr") is not ZERO:
        s.C.fail("destroy", "handle", s.where("buzzdarray_destroy"), "destroy does not reset the handle to NULL", a.trail)


def C_FN(s):
    return s.C.prog.need("buzzdarray_makeslot")


def reach(s, st, p, seen=None):
    """allocations reachable from a block"""
    seen = seen if seen is not None else []
    if ("size", p) in st.ghost and p not in seen:
        seen.append(p)
        for a, (v, ty) in list(st.mem.items()):
            if ty == "ptr" and sub(a, p).op == "i":
                reach(s, st, v, seen)
    return seen


def sort(s, C):
    """sort: a sorted permutation, whatever the order of the elements and for every comparison outcome"""
    import itertools
    N = 5 if C.tier == "thorough" else 4
    for n in range(0, N + 1):
        perms = set(itertools.permutations(range(n)))
        # with ties
        for r in itertools.product(range(max(n - 1, 1)), repeat=n):
            perms.add(r)
        for pm in sorted(perms):
            st, da = s.new()
            L = []
            rank = {}
            for x in pm:
                v = s.val(st)
                rank[v] = x
                p = s.put(st, v)
                st, _ = s.k.call(st, "buzzdarray_insert", da, I(len(L)), p)
                L.append(v)

            def cmpf(st, args, fn, ins):
                a, b = s.get(st, args[0]), s.get(st, args[1])
                for q in args[:2]:
                    s.k.access(st, q, s.es, fn, ins, "comparison of")
                if a not in rank or b not in rank:
                    return ZERO
                return I((rank[a] > rank[b]) - (rank[a] < rank[b]))
            s.k.tag = "sort of %d" % n
            a, _ = s.k.call(st, "buzzdarray_sort", da, s.k.cb("cmp", cmpf))
            s.C.ob("sort", "sort of %d element(s) in order %s" % (n, pm))
            if a is None:
                continue
            got = s.content(a, da)
            if got is None or sorted(map(str, got)) != sorted(map(str, L)) or any(rank[got[i]] > rank[got[i + 1]] for i in range(n - 1)):
                s.C.fail("sort", "sort", s.where("buzzdarray_sort"), "sort of %d elements of ranks %s gives ranks %s" % (
                    n, pm, [rank.get(g, "?") for g in got] if got else got), a.trail)


def frombuffer(s, C):
    for n in range(0, 4):
        st = State()
        L = []
        buf = s.k.alloc(st, max(n * s.es, 1))
        for i in range(n):
            v = s.val(st)
            L.append(v)
            o = 0
            for x, c in zip(v, CELL[s.es]):
                st.mem[addc(buf, i * s.es + o)] = (x, c)
                o += SZ[c]
        s.k.tag = "frombuffer of %d" % n
        a, da = s.k.call(st, "buzzdarray_frombuffer", buf, I(n * s.es), I(s.es), ZERO)
        s.ok("frombuffer", "frombuffer on %d element(s)" % n, a, da, L, s.where("buzzdarray_frombuffer"))
        w = list(L)
        for _ in range(3):
            v = s.val(a)
            p = s.put(a, v)
            s.k.tag = "push after frombuffer of %d" % n
            a2, _ = s.k.trycall(a, "buzzdarray_insert", da, I(len(w)), p)
            if a2 is None:
                C.ob("frombuffer", "push after frombuffer of %d" % n)
                C.fail("frombuffer", "push after frombuffer", s.where("buzzdarray_frombuffer"), "an array made from a buffer of %d elements cannot grow: the next push aborts" % n)
                break
            a = a2
            w.append(v)
            s.ok("frombuffer", "push after frombuffer on %d element(s)" % n, a, da, w, s.where("buzzdarray_frombuffer"))


def run(C):
    deep = C.tier == "thorough"
    for es in (1, 2, 4, 8, 16):
        for destroy in (False, True):
            s = DA(C, es, destroy)
            st, da = s.new(1)
            explore(s, st, da, [], 4 if (deep or es == 8) and not (es != 8 and destroy) else 2, {"max": 9})
            if destroy or es == 8:
                for cap in (2, 3, 5):
                    st, da = s.new(cap)
                    explore(s, st, da, [], 2, {"max": 9})
            # long growth and shrinkage through several reallocations
            st, da = s.new(1)
            L = []
            for i in range(18):
                v = s.val(st)
                p = s.put(st, v)
                s.k.tag = "growth to %d" % (i + 1)
                st, _ = s.k.call(st, "buzzdarray_insert", da, I(i), p)
                L.append(v)
                s.ok("growth", "growth to %d" % (i + 1), st, da, L, s.where("buzzdarray_makeslot"))
            for i in range(18):
                pos = len(L) - 1 if i % 2 else 0
                s.k.tag = "shrinking from %d" % len(L)
                st, _ = s.k.call(st, "buzzdarray_remove", da, I(pos))
                L.pop(pos)
                s.ok("growth", "shrinking to %d" % len(L), st, da, L, s.where("buzzdarray_remove"))
            # a pop of an empty array has no effect
            s.k.tag = "pop of an empty array"
            a, _ = s.k.call(st, "buzzdarray_remove", da, I(-1))
            s.ok("remove", "pop of an empty array", a, da, [], s.where("buzzdarray_remove"))
            if not destroy:
                sort(s, C)
                frombuffer(s, C)
            C.absorb(s.k.e)
    C.assume("allocation never fails; the element count stays below 2^31")


MINIMA = {"insert": 100, "remove": 100, "set": 100, "clear": 20, "clone": 50, "visit": 50, "destroy": 20, "sort": 100, "frombuffer": 10, "growth": 100, "memory": 1000}
