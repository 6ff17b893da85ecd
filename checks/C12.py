"""Objects in use. Collection is only started between two instructions: on the call graph, no function that C closures or callbacks use reaches
buzzheap_gc() other than through buzzvm_step(), and in the abstract interpretation of every instruction it does not run between taking an operand
and finishing with it. All native code that calls script functions is interpreted with a collection at every such call, in which everything that is
not reachable from the stack, the current frame or the data the script itself holds is released, and elements are removed from all containers; no
path may then touch, store or return a released object or element."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bzsa.terms import *
from bzsa.absint import INF
from bzsa.collenv import Cb, GcMsg
from bzsa.vmspec import Step, opcodes, fold
from bzsa.ir import AnalysisError


# ---- when collections take place --------------------------------------------------
def fnrefs(x):
    if isinstance(x, dict):
        for y in x.values():
            yield from fnrefs(y)
    elif isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] == "fn" and isinstance(x[1], str):
            yield x[1]
        else:
            for y in x:
                yield from fnrefs(y)


def callgraph(C):
    calls, taken = {}, set()
    for f in C.prog.allfuncs():
        cs = calls.setdefault(f.name, set())
        for b in f.blocks:
            for ins in b:
                if ins["op"] == "call":
                    if ins["callee"][0] == "fn":
                        cs.add(ins["callee"][1])
                    refs = list(fnrefs(ins["ops"]))
                    # a function passed to another one may be called by it
                    cs.update(r for r in refs if ins["callee"][0] == "fn" and ins["callee"][1] != "buzzvm_function_register")
                else:
                    refs = list(fnrefs({k: y for k, y in ins.items() if k != "callee"}))
                taken.update(refs)
    return calls, taken


def trigger(C):
    C.prog.need("buzzheap_gc")
    calls, taken = callgraph(C)
    back = {}
    for f, cs in calls.items():
        for c in cs:
            back.setdefault(c, set()).add(f)
    S, todo, via = {"buzzheap_gc"}, ["buzzheap_gc"], {}
    while todo:
        x = todo.pop()
        for y in back.get(x, ()):
            if y not in S and y != "buzzvm_step":
                S.add(y)
                via[y] = x
                todo.append(y)
    prim = {f for f in calls if f.startswith("buzzvm_push") or f in ("buzzheap_newobj", "buzzheap_clone", "buzzobj_new", "buzzobj_clone", "buzzvm_pop",
            "buzzvm_tput", "buzzvm_tget", "buzzvm_gload", "buzzvm_gstore", "buzzvm_lload", "buzzvm_lstore", "buzzvm_dup", "buzzobj_deserialize")}
    for f in sorted((taken | prim) & set(calls)):
        C.ob("trigger", f)
        if f in S:
            p, x = [f], f
            while x in via:
                x = via[x]
                p.append(x)
            fn = C.prog.func(f) or (C.prog.statics.get(f) or [None])[0]
            C.fail("trigger", f, "%s:%s" % (fn.file if fn else "?", f), "can start a collection while its caller holds objects: %s" % " -> ".join(p))
    C.notes.append("%d functions that are primitives or whose address is taken" % len((taken | prim) & set(calls)))
    # inside an instruction
    W = "buzzvm.c:buzzvm_step"
    some = False
    REL = ("da_pop", "da_push", "da_insert", "da_remove", "da_set", "newobj", "dset", "dget", "da_clone")
    for op in opcodes(C):
        S_ = Step(C, op)
        V = S_.V
        V.depth_at_least(5)
        V.frame()
        V.arr("lsymts")
        V.arr("stacks")
        if op in ("CALLC", "CALLS"):
            S_.e.unroll_const = 2
            S_.e.models["*icall*"] = lambda e, st, t, args, fn, ins: (st, e.fresh(st, e.site(fn, ins), ins["ty"]))
        for o in S_.run():
            C.ob("instruction", op)
            ev = [x[0] for x in o.st.events]
            gcs = [i for i, x in enumerate(ev) if x == "gc"]
            some = some or bool(gcs)
            for i in gcs:
                if any(x in ("da_pop", "newobj", "da_remove", "da_clone") for x in ev[:i]) and any(x in REL for x in ev[i + 1:]):
                    C.fail("instruction", op, W, "a collection takes place while the instruction holds operands or results", o.st.trail)
    C.ob("instruction", "collections take place")
    if not some:
        C.fail("instruction", "collections take place", W, "no instruction ever starts a collection")


# ---- functions that call back ------------------------------------------------------
class Only:
    """runs the scenarios of another check, keeping only what concerns released objects"""

    def __init__(s, C, tag):
        s.C, s.tag = C, tag

    def __getattr__(s, n):
        return getattr(s.C, n)

    def ob(s, rule, inst, *a, **k):
        s.C.ob(s.tag, "%s: %s" % (rule, inst))

    def fail(s, rule, inst, where, msg, trail=()):
        if "after it was released" in msg:
            s.C.fail(s.tag, "%s: %s" % (rule, inst), where, msg, trail)


def report(C, rule, inst, N, st):
    C.ob(rule, inst)
    for u in N.uaf(st)[:1]:
        C.fail(rule, inst, N.where, "%s is %s after it may have been released (%s)" % (show(u[1]), u[3], u[2]), st.trail)


def conflicts(C):
    for kind in ("VSTIG_PUT", "VSTIG_QUERY"):
        for kty in ("INT", "STRING"):
            N = GcMsg(C)
            v, e, st = N.v, N.e, N.st
            e.recursion = 1
            idt = mk("vsid", width=16)
            k, x = N.V.obj("key", getattr(v, kty)), N.V.obj("value")
            st.facts[e.load(st, x, "i16")] = (0, 6, frozenset())
            e.store(st, addc(k, v.vi), mk("keyval", width=32), "i32") if kty == "INT" else e.store(st, addc(k, v.sv["sid"]), mk("keyval", width=16), "i16")
            key = mk("ikey", mk("keyval", width=32)) if kty == "INT" else mk("skey", mk("keyval", width=16))
            N.payload([(I(N.MT[kind]), 1), (idt, 2), k, x, (mk("tsV", width=16), 2), (mk("robV", width=16), 2)])
            vs, data = N.vstig(idt)
            el = N.velem(data, key)
            st.facts[e.load(st, mk("obj", "data_l"), "i16")] = (0, 6, frozenset())
            N.volatile.add(mk("obj", "data_l"))
            for f in ("onconflict", "onconflictlost"):
                e.store(st, addc(vs, N.VS[f]), N.V.obj("cl_" + f, v.CLOSURE), "ptr")
            base = N.onccall

            def onccall(st, c, a, base=base, el=el, vs=vs, N=N):
                base(st, c, a)
                for b in (el, vs):
                    st.ghost[("freed", b)] = True
                for g in [g for g in st.ghost if isinstance(g, tuple) and g[0] == "stored"]:
                    st.ghost[("freed", g[1])] = True
            N.onccall = onccall
            n = 0
            for o in N.run("buzzvm_process_inmsgs"):
                n += len(N.evs(o.st, "ccall"))
                report(C, "conflict", "%s with a %s key, %d manager calls" % (kind, kty.lower(), len(N.evs(o.st, "ccall"))), N, o.st)
            if n < 2:
                raise AnalysisError("conflict managers are not reached")


def broadcast(C):
    N = GcMsg(C)
    v, e, st = N.v, N.e, N.st
    t, x = N.V.obj("topic", v.STRING), N.V.obj("value")
    sid = mk("topicsid", width=16)
    e.store(st, addc(t, v.sv["sid"]), sid, "i16")
    N.payload([(I(N.MT["BROADCAST"]), 1), t, x])
    d = mk("vmf", "listeners")
    st.ghost[("d", d, sid)] = "yes"
    c = N.dd.cell(d, sid)
    st.facts[c] = (1, INF, frozenset())
    cl = N.V.obj("listener", v.CLOSURE)
    e.store(st, c, cl, "ptr")
    N.volatile.add(cl)
    N.vcells.add(c)
    n = 0
    for o in N.run("buzzvm_process_inmsgs"):
        n += len(N.evs(o.st, "ccall"))
        report(C, "listener", "a broadcast", N, o.st)
    if not n:
        raise AnalysisError("listeners are not reached")


def vforeach(C):
    for n in (0, 1, 2, 3):
        N = Cb(C, 1)
        v, e, st = N.v, N.e, N.st
        cl = N.arg(1, N.V.obj("fun", v.CLOSURE))
        vs, data = N.vstig(N.id)
        ents = ()
        for i in range(n):
            k, d, el = N.V.obj("k%d" % i), N.V.obj("d%d" % i), mk("velem", i)
            st.facts[el] = (1, INF, frozenset())
            for f, t, w in (("data", d, "ptr"), ("timestamp", mk("ts", i, width=16), "i16"), ("robot", mk("rob", i, width=16), "i16")):
                e.store(st, addc(el, N.VE[f]), t, w)
            ents += ((k, "ptr", el, "ptr"),)
            N.volatile |= {k, d, el}
            N.vcells |= {mk("fekey", data, i), mk("fedata", data, i)}
        st.ghost[("dconc", data)] = ents
        # an element's value is as alive as the element when it is visited
        cb = N.dd.callback

        def visit(e, st, f, args, fn, ins, cb=cb, N=N):
            c = st.mem.get(st.simp(args[1]))
            if c is not None and c[0].op == "velem":
                dd = st.mem.get(addc(c[0], N.VE["data"]))
                st.ghost.pop(("freed", dd[0]), None)
            return cb(e, st, f, args, fn, ins)
        N.dd.callback = visit
        calls = 0
        for o in N.run("buzzvstig_foreach"):
            calls += len(N.evs(o.st, "ccall"))
            report(C, "stigmergy foreach", "%d elements" % n, N, o.st)
        if n and not calls:
            raise AnalysisError("stigmergy foreach calls nothing")


def run(C):
    trigger(C)
    import C09, C21
    C09.run(Only(C, "table functions"))
    C21.run(Only(C, "neighbor functions"))
    vforeach(C)
    broadcast(C)
    conflicts(C)
    C.assume("a script that creates a stigmergy anew while a foreach() on it is in progress is outside the analysis")


MINIMA = {"trigger": 60, "instruction": 45, "table functions": 100, "neighbor functions": 100, "conflict": 8, "listener": 1, "stigmergy foreach": 4}
