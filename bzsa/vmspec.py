"""Abstract runs of single VM instructions from partitioned symbolic pre-states."""
from .terms import *
from .absint import Interp, State, INF
from .ir import AnalysisError
from .vmenv import VM, vm_models, Env
from . import models as M


def feasible(st, conds):
    """copy of st refined by conds, or None"""
    s2 = st.copy()
    for c, v in conds:
        if not s2.assume(deep(s2, c), v) or not s2.assume(c, v):
            return None
    return s2 if s2.consistent() else None


BIN = {"sdiv", "udiv", "srem", "urem", "mul", "and", "or", "xor", "shl", "ashr", "lshr", "fadd", "fsub", "fmul", "fdiv"}


def deep(st, t, d=0):
    """rebuild t with every sub-term that is a known constant replaced"""
    if t.op in ("i", "cf", "b", "sym", "ld", "new", "str", "arg", "obj", "fn", "g") or d > 8:
        return st.simp(t)
    if t.op == "lin":
        r = I(t.a[0])
        for a, k in t.a[1]:
            r = add(r, scale(deep(st, a, d + 1), k))
        return st.simp(r)
    if t.op in BIN:
        return st.simp(binop(t.op, deep(st, t.a[0], d + 1), deep(st, t.a[1], d + 1), width=t.width))
    if t.op == "le":
        return icmp("sle", deep(st, t.a[0], d + 1), I(t.a[1]))
    if t.op == "eq":
        return icmp("eq", deep(st, t.a[0], d + 1), I(t.a[1]))
    if t.op == "not":
        return NOT(deep(st, t.a[0], d + 1))
    if t.op in ("flt", "fle", "feq"):
        return fcmp({"flt": "olt", "fle": "ole", "feq": "oeq"}[t.op], deep(st, t.a[0], d + 1), deep(st, t.a[1], d + 1))
    if t.op == "byte":
        return st.simp(byte(deep(st, t.a[0], d + 1), t.a[1]))
    if t.op in ("i2f", "f2i", "fneg") or t.op == "call" or t.op == "trunc":
        return st.simp(mk(t.op, *[deep(st, x, d + 1) if isinstance(x, T) else x for x in t.a], width=t.width))
    return st.simp(t)


def fold(st, t):
    t = deep(st, t)
    if isbool(t):
        v = st.ev(t)
        if v is not None:
            return I(int(v))
    return t


def agree(st, got, cases):
    """cases: [(conds, value or tuple of accepted values)].  Returns None or a message."""
    for conds, want in cases:
        s2 = feasible(st, conds)
        if s2 is None:
            continue
        g = fold(s2, got)
        w = want if isinstance(want, (tuple, list)) else (want,)
        ok = False
        for x in w:
            x = fold(s2, x)
            if g is x:
                ok = True
        if not ok:
            return "value is %s where %s is required%s" % (
                show(g), " or ".join(show(fold(s2, x)) for x in w),
                " (case %s)" % ", ".join(("" if v else "not ") + show(c) for c, v in conds) if conds else "")
    return None


class Step:
    """one abstract run of buzzvm_step() on a given opcode"""

    def __init__(s, C, opname, depth=None, models=None, room=9, hooks=None):
        s.C = C
        s.v = C.env
        s.p = C.prog
        m = vm_models(s.v)
        if models:
            m.update(models)
        s.e = Interp(C.prog, m, hooks)
        s.V = VM(s.v, s.e)
        s.st = s.V.st
        s.opname = opname
        op = opname if isinstance(opname, T) else I(C.prog.enum("BUZZVM_INSTR_" + opname))
        V = s.V
        s.st.assume(icmp("sge", V.pc, ZERO), True)
        if room is not None:
            # enough bytecode follows this instruction
            s.st.assume(icmp("sle", addc(V.pc, room), V.bsz), True)
        s.e.store(s.st, add(mk("vmf", "bcode"), V.pc), op, "i8")
        if depth is not None:
            V.depth_at_least(depth)

    def operand(s, i, name, ty):
        """object of known type at stack #i, with symbolic value"""
        o = s.V.obj(name, ty)
        s.V.put(i, o)
        return o

    def arg(s, val, ty="i32"):
        s.e.store(s.st, add(mk("vmf", "bcode"), addc(s.V.pc, 1)), val, ty)

    def run(s, fn="buzzvm_step", args=None):
        f = s.p.need(fn)
        s.pre = s.st.copy()
        s.outs = s.e.run(f, args if args is not None else [s.V.vm], s.st)
        s.C.absorb(s.e)
        s.fn = f
        return s.outs

    # ---- post-state ----
    def state(s, st):
        return s.V.get(st, "state", "i32")

    def error(s, st):
        return s.V.get(st, "error", "i32")

    def is_ready(s, st):
        return s.state(st) is I(s.v.READY)

    def is_error(s, st, code=None):
        return s.state(st) is I(s.v.ERROR) and (code is None or s.error(st) is I(s.v.E[code]))

    def where(s):
        return "%s:%s" % (s.fn.file, s.fn.name)


def operand_value(v, e, st, o, ty):
    if ty == v.INT:
        return e.load(st, addc(o, v.vi), "i32")
    if ty == v.FLOAT:
        return e.load(st, addc(o, v.vf), "f32")
    return None


def last_line(st):
    return "%s:%s" % (st.trail[-1][0], st.trail[-1][1]) if st.trail else "?"


# opcode -> (bytes of argument, operands needed, net stack effect); None = checked separately
OPS = {"NOP": (0, 0, 0), "DONE": (None, 0, 0), "PUSHNIL": (0, 0, 1), "DUP": (0, 1, 1), "POP": (0, 1, -1),
       "RET0": None, "RET1": None, "ADD": (0, 2, -1), "SUB": (0, 2, -1), "MUL": (0, 2, -1), "DIV": (0, 2, -1),
       "MOD": (0, 2, -1), "POW": (0, 2, -1), "UNM": (0, 1, 0), "LAND": (0, 2, -1), "LOR": (0, 2, -1),
       "LNOT": (0, 1, 0), "BAND": (0, 2, -1), "BOR": (0, 2, -1), "BNOT": (0, 1, 0), "LSHIFT": (0, 2, -1),
       "RSHIFT": (0, 2, -1), "EQ": (0, 2, -1), "NEQ": (0, 2, -1), "GT": (0, 2, -1), "GTE": (0, 2, -1),
       "LT": (0, 2, -1), "LTE": (0, 2, -1), "GLOAD": (0, 1, 0), "GSTORE": (0, 2, -2), "PUSHT": (0, 0, 1),
       "TPUT": (0, 3, -3), "TGET": (0, 2, -1), "CALLC": None, "CALLS": None, "PUSHF": (4, 0, 1), "PUSHI": (4, 0, 1),
       "PUSHS": (4, 0, 1), "PUSHCN": (4, 0, 1), "PUSHCC": (4, 0, 1), "PUSHL": (4, 0, 1), "LLOAD": (4, 0, 1),
       "LSTORE": (4, 1, -1), "LREMOVE": (4, 0, 0), "JUMP": (4, 0, 0), "JUMPZ": (4, 1, -1), "JUMPNZ": (4, 1, -1)}


def opcodes(C):
    """the instruction set of the current tree, in encoding order"""
    out = []
    n = C.prog.enum("BUZZVM_INSTR_COUNT")
    by = {v: k[len("BUZZVM_INSTR_"):] for k, v in C.prog.enumvals.items() if k.startswith("BUZZVM_INSTR_")}
    for i in range(n):
        if i not in by:
            raise AnalysisError("opcode %d has no name" % i)
        out.append(by[i])
    return out


def stack_guard(C, S, rule, inst):
    """hook: an element of the VM stack may be read only while it is part of the stack"""
    d = mk("dadata", S.V.stack)

    def h(e, fn, ins, st, addr):
        p = dict(lin_parts(addr)[1])
        if p.get(d) != 1:
            return
        off = sub(addr, d)
        n = e.load(st, addc(S.V.stack, S.v.DA["size"]), "i64")
        lo, _ = st.bounds(off)
        _, hi = st.bounds(sub(addc(off, 8), scale(n, 8)))
        if lo < 0 or hi > 0:
            C.fail(rule, inst, "%s:%s (%s)" % (fn.file, ins.get("line"), fn.name),
                   "reads stack element at byte offset %s, outside the %s live elements" % (show(off), show(n)), st.trail)
    S.e.hooks["load"] = h


def code_guard(C, S, rule, inst):
    """hook: bytecode may be read only inside [0, bcode_size)"""
    b = mk("vmf", "bcode")
    W = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "f32": 4, "f64": 8, "ptr": 8}

    def h(e, fn, ins, st, addr):
        p = dict(lin_parts(addr)[1])
        if p.get(b) != 1:
            return
        off = sub(addr, b)
        C.ob(rule + "-read", inst)
        bsz = e.load(st, addc(S.V.vm, S.v.VM["bcode_size"]), "i32")
        lo, _ = st.bounds(off)
        _, hi = st.bounds(sub(addc(off, W.get(ins["ty"], 8)), bsz))
        if lo < 0 or hi > 0:
            C.fail(rule, inst, "%s:%s (%s)" % (fn.file, ins.get("line"), fn.name),
                   "reads %s byte(s) of bytecode at offset %s without having established 0 <= offset and offset+%s <= bcode_size"
                   % (W.get(ins["ty"], 8), show(off), W.get(ins["ty"], 8)), st.trail)
    S.e.hooks["load"] = h
