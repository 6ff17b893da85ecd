"""Swarm membership of other robots. The members_* operations are interpreted abstractly on a symbolic membership table: robot known or unknown,
0 to 3 known swarm ids (symbolic, pairwise distinct), any id joined, left or asked for, any age. Per path the facts decide which ids are
equal; the swarm set and age of the robot afterwards, the answer, and the untouched entries must be the ones defined. Ageing is interpreted
on a table of three robots with symbolic ages."""
from bzsa.terms import *
from bzsa.absint import INF
from bzsa.natenv import Safe, Msg, fields
from bzsa.vmspec import fold, feasible

M = mk("members")
SWF = {}


class Mem(Safe):
    def __init__(s, C, known=None):
        Safe.__init__(s, C, keep=("buzzswarm_members_join", "buzzswarm_members_leave", "buzzswarm_members_refresh", "buzzswarm_members_update"))
        s.e.unroll = 8
        s.EL = fields(C, "buzzswarm_elem_s")
        st, e, v = s.st, s.e, s.v
        st.facts[M] = (1, INF, frozenset())
        st.ghost[("dks", M)] = 2
        s.r, s.sw = mk("robotid", width=16), mk("swarmid", width=16)
        e.models["buzzdarray_destroy"] = s.dadestroy
        s.elem = mk("selem")
        s.swda = mk("swda")
        if known is None:
            st.ghost[("d", M, s.r)] = "no"
            s.ids = []
        else:
            c = s.entry(s.r, "", known)
            s.ids = [mk("sw", "", i, width=16) for i in range(known)]
            for i in range(known):
                for j in range(i):
                    st.assume(icmp("eq", s.ids[i], s.ids[j]), False)

    def entry(s, r, name, n):
        st, e = s.st, s.e
        el, da = mk("selem", name), mk("swda", name)
        if name == "":
            s.el0, s.da0 = el, da
        for t in (el, da):
            st.facts[t] = (1, INF, frozenset())
        st.ghost[("d", M, r)] = "yes"
        c = s.dd.cell(M, r)
        st.facts[c] = (1, INF, frozenset())
        e.store(st, c, el, "ptr")
        e.store(st, addc(el, s.EL["swarms"]), da, "ptr")
        e.store(st, addc(el, s.EL["age"]), mk("age", name, width=16), "i16")
        st.facts[mk("age", name, width=16)] = (0, 50, frozenset())
        s.V.darray(da, I(n), 2)
        for i in range(n):
            s.V.arrput(da, I(i), mk("sw", name, i, width=16), "i16")
        return el

    def owned(s, st, dt):
        return False

    def dadestroy(s, e, st, args, fn, ins):
        da = st.simp(e.load(st, args[0], "ptr"))
        s.release(st, da, fn, ins)
        e.store(st, args[0], ZERO, "ptr")
        return st, None

    def dremove(s, e, st, args, fn, ins):
        dt = args[0]
        k = s.dd.key(e, st, args[1], dt)
        out = []
        for s1, pres in s.dd.lookup(e, st, dt, k):
            if pres and dt is M:
                c = s.dd.cell(dt, k, s1)
                el = s1.simp(e.load(s1, c, "ptr"))
                s.release(s1, el, fn, ins)
                s1.ghost[("freed", c)] = True
            out += e.norm(s.dd.remove(e, s1, args, fn, ins), s1)
        return out

    def after(s, st):
        """(ids, age) known about the robot, ids None when the entry's array is not known"""
        g = st.ghost.get(("d", M, s.r))
        if g != "yes":
            return ([], None) if g == "no" else (None, None)
        e = s.e
        el = st.simp(e.load(st, s.dd.cell(M, s.r, st), "ptr"))
        da = st.simp(e.load(st, addc(el, s.EL["swarms"]), "ptr"))
        n = s.V.asize(st, da)
        if ("freed", da) in st.ghost or ("freed", el) in st.ghost or n.op != "i":
            return None, None
        return [fold(st, s.V.aget(st, da, I(i), "i16")) for i in range(n.a[0])], fold(st, e.load(st, addc(el, s.EL["age"]), "i16"))

    def others(s, st):
        return [x for x in s.evs(st, "dset", "dremove") if x[1] is not M or x[2] is not s.r]


def which(N, st):
    """index of the known id equal to the swarm id on this path, or -1; None if undecided"""
    und = False
    for i, x in enumerate(N.ids):
        r = st.ev(icmp("eq", x, N.sw))
        if r is True:
            return i
        if r is None:
            und = True
    return None if und else -1


def cases(N, st):
    """[(state, index)] deciding which known id equals the swarm id"""
    i = which(N, st)
    if i is not None:
        return [(st, i)]
    out = []
    for j in range(len(N.ids) + 1):
        s2 = feasible(st, [(icmp("eq", x, N.sw), i == j) for i, x in enumerate(N.ids)])
        if s2 is not None:
            out.append((s2, j if j < len(N.ids) else -1))
    return out


def run(C):
    for fn, what in (("join", "join"), ("leave", "leave"), ("refresh", "list"), ("isrobotin", "query")):
        for known in (None, 0, 1, 2, 3):
            for m in ((1, 2, 3) if fn == "refresh" else (0,)):
                one(C, fn, what, known, m)
    ageing(C)
    once(C)
    C.assume("the ids in a received list are pairwise distinct (the sender keeps them so, see C20)")


def one(C, fn, what, known, m):
    N = Mem(C, known)
    st = N.st
    last = N.sw
    if fn == "refresh":
        da = mk("listda")
        st.facts[da] = (1, INF, frozenset())
        N.V.darray(da, I(m), 2)
        for i in range(m):
            N.V.arrput(da, I(i), mk("lid", i, width=16), "i16")
        last = da
    f = "buzzswarm_members_" + fn
    inst0 = "%s, %s" % (f, "unknown robot" if known is None else "robot known in %d swarms" % known)
    seen = set()
    outs = N.run(f, [M, N.r, last])
    for o in outs:
        u = N.uaf(o.st)
        if u:
            C.fail(what, inst0, N.where, "%s is %s after it was released (%s)" % (show(u[0][1]), u[0][3], u[0][2]), o.st.trail)
            continue
        for s2, i in (cases(N, o.st) if fn != "refresh" else [(o.st, -1)]):
            seen.add(i)
            inst = inst0 + ("" if fn == "refresh" else ", id %s" % ("among them" if i >= 0 else "not among them"))
            C.ob(what, inst)
            x = N.others(s2)
            if x:
                C.fail(what, inst, N.where, "changes the entry of another robot", s2.trail)
            ids, age = N.after(s2)
            old = [fold(s2, t) for t in N.ids]
            if fn == "isrobotin":
                want = i >= 0
                r = s2.ev(icmp("eq", o.ret, ZERO))
                if r is None or (r is False) != want:
                    C.fail(what, inst, N.where, "answers %s" % show(o.ret), s2.trail)
                if (ids is None or sorted(ids, key=str) != sorted(old, key=str)) and N.evs(s2, "dset", "dremove"):
                    C.fail(what, inst, N.where, "a query changes the information", s2.trail)
                continue
            sw = fold(s2, N.sw)
            if fn == "join":
                want = old if i >= 0 else old + [sw]
            elif fn == "leave":
                want = old[:i] + old[i + 1:] if i >= 0 else old
            else:
                want = [mk("lid", j, width=16) for j in range(m)]
            if known is None and fn == "leave":
                want = []
            if ids is None:
                if not (N.st.ghost.get(("d", M, N.r)) == "no"):
                    C.fail(what, inst, N.where, "the robot's entry is not usable afterwards", s2.trail)
                continue
            key = lambda t: t.uid
            if sorted(ids, key=key) != sorted(want, key=key):
                C.fail(what, inst, N.where, "the robot is in %s afterwards instead of %s" % ([show(t) for t in ids], [show(t) for t in want]), s2.trail)
            if age is not None and age is not ZERO and want:
                C.fail(what, inst, N.where, "its age is %s after hearing from the robot" % show(age), s2.trail)
    want = {-1} if fn == "refresh" or not known else set(range(-1, known))
    if seen != want:
        C.fail(what, inst0, N.where, "no path handles some ids (found %s)" % sorted(seen), ())


def ageing(C):
    fn = "buzzswarm_members_update"
    N = Mem(C)
    N.st.ghost.pop(("d", M, N.r))
    conc, robs = [], []
    for i in range(3):
        r = mk("rob", i, width=16)
        robs.append(r)
        el = N.entry(r, "e%d" % i, 1)
        conc.append((r, "i16", el, "ptr"))
    for i in range(3):
        for j in range(i):
            N.st.assume(icmp("eq", robs[i], robs[j]), False)
    N.st.ghost[("dconc", M)] = tuple(conc)
    seen = set()
    for o in N.run(fn, [M]):
        C.ob("ageing", "update of three entries")
        u = N.uaf(o.st)
        if u:
            C.fail("ageing", fn, N.where, "%s is %s after it was released (%s)" % (show(u[0][1]), u[0][3], u[0][2]), o.st.trail)
        for bits in range(8):
            s2 = feasible(o.st, [(icmp("sge", mk("age", "e%d" % i, width=16), I(50)), bool(bits >> i & 1)) for i in range(3)])
            if s2 is None:
                continue
            seen.add(bits)
            gone = [x[2] for x in N.evs(s2, "dremove")]
            want = [robs[i] for i in range(3) if bits >> i & 1]
            if sorted(gone, key=str) != sorted(want, key=str) or N.evs(s2, "dset"):
                C.fail("ageing", fn, N.where, "forgets %s instead of %s" % ([show(x) for x in gone], [show(x) for x in want]), s2.trail)
            for i in range(3):
                if not bits >> i & 1:
                    a = fold(s2, N.e.load(s2, addc(mk("selem", "e%d" % i), N.EL["age"]), "i16"))
                    if a is not addc(mk("age", "e%d" % i, width=16), 1):
                        C.fail("ageing", fn, N.where, "the age of a remaining entry becomes %s" % show(a), s2.trail)
    if seen != set(range(8)):
        C.fail("ageing", fn, N.where, "combinations found: %s" % sorted(seen), ())


def once(C):
    """the table ages once per processing round"""
    for n in (0, 1):
        N = Msg(C)
        N.payload([(I(N.MT["SWARM_JOIN"]), 1), (mk("sid_", width=16), 2)])
        if n == 0:
            N.e.store(N.st, addc(N.inq, N.v.DD["size"]), ZERO, "i32")
        for o in N.run("buzzvm_process_inmsgs"):
            C.ob("rounds", "%d messages" % n)
            k = N.evs(o.st, "m_update")
            if len(k) != 1 or k[0][1] is not mk("vmf", "swarmmembers"):
                C.fail("rounds", "%d messages" % n, N.where, "the membership information ages %d times in one round" % len(k), o.st.trail)


MINIMA = {"join": 8, "leave": 8, "list": 12, "query": 8, "ageing": 1, "rounds": 2}
