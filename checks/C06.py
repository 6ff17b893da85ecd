"""All instructions of the instruction set (enumerated from the enum of the current tree) are interpreted abstractly on
stacks of exactly 0,1,2,3 and of arbitrary many elements with operands of unknown type: with too few operands the only
possible outcome is a stack error, no path reads a stack element that does not exist, and every path that succeeds
changes the depth by the amount the instruction documents, advances the pc by its encoded length (or to its jump target)
and leaves the other VM registers alone."""
from bzsa.terms import *
from bzsa.vmspec import *

FROZEN = ("stacks", "stack", "lsymts", "lsyms", "gsyms", "strings", "heap", "flist", "swarms", "swarmstack",
          "swarmmembers", "inmsgs", "outmsgs", "vstigs", "listeners", "bcode")


def run(C):
    v = C.env
    W = "buzzvm.c:buzzvm_step"
    for op in opcodes(C):
        if op not in OPS:
            C.fail("instruction-set", op, W, "instruction is not part of the specified instruction set")
            continue
        if OPS[op] is None:
            continue
        alen, need, delta = OPS[op]
        for depth in (0, 1, 2, 3, None):
            S = Step(C, op)
            V = S.V
            ls, da, n = V.frame()
            if depth is not None:
                V.size(V.stack, I(depth))
                V.S0 = I(depth)
            else:
                V.depth_at_least(4)
            tgt = mk("target")
            if alen:
                S.arg(tgt, "f32" if op == "PUSHF" else "i32")
                if op.startswith("JUMP"):
                    S.st.assume(icmp("sge", tgt, ZERO), True)
                    S.st.assume(icmp("slt", tgt, V.bsz), True)
                if op in ("LLOAD", "LSTORE", "LREMOVE"):
                    S.st.assume(icmp("sge", tgt, ZERO), True)
            inst = "%s depth=%s" % (op, "any" if depth is None else depth)
            stack_guard(C, S, "stack-bounds", inst)
            outs = S.run()
            C.ob("stack-bounds", inst, "%d abstract paths" % len(outs))
            short = depth is not None and depth < need
            okpaths = 0
            for o in outs:
                st = o.st
                if short:
                    C.ob("underflow", inst)
                    if not S.is_error(st, "STACK"):
                        C.fail("underflow", inst, W, "%s needs %d operand(s) but does not stop with a stack error on %d"
                               % (op, need, depth), st.trail)
                    continue
                if S.is_error(st):
                    continue
                okpaths += 1
                C.ob("effect", inst)
                if V.stack_delta(st) != delta:
                    C.fail("effect", inst, W, "depth changes by %s, documented %d" % (V.stack_delta(st), delta), st.trail)
                for f in FROZEN:
                    if V.get(st, f, "ptr") is not V.get(S.pre, f, "ptr"):
                        C.fail("effect", inst, W, "vm->%s is replaced" % f, st.trail)
                pc = V.get(st, "pc", "i32")
                if op == "DONE":
                    if S.state(st) is not I(v.DONE):
                        C.fail("effect", inst, W, "done must leave the VM in state DONE", st.trail)
                    continue
                nxt = addc(V.pc, 1 + alen)
                good = (tgt,) if op == "JUMP" else (tgt, nxt) if op.startswith("JUMP") else (nxt,)
                if pc not in good:
                    C.fail("effect", inst, W, "next pc is %s" % show(pc), st.trail)
            if not short and not okpaths:
                C.fail("effect", inst, W, "no path succeeds with %s operands on the stack" % ("enough" if depth is None else depth))
    if set(OPS) - set(opcodes(C)):
        C.fail("instruction-set", "missing", W, "instructions %s vanished" % sorted(set(OPS) - set(opcodes(C))))


MINIMA = {"underflow": 40, "effect": 100, "stack-bounds": 200}
