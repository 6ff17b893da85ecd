"""Abstract interpretation of the assembler and disassembler on an abstract file system.  For every instruction of the instruction
set the bytes produced by buzz_asm() are compared with the documented encoding (opcode = enumerator, 4-byte operand or none);
labels are placed before and after their uses; strings, comments, spaces and debug annotations are varied; instruction
boundaries are slid over every multiple of the buffer's growth; each wrong program and each failing file operation must
be reported.  The disassembler is given every instruction and every truncation of a program.  All memory accesses are obligations."""
import struct
from bzsa.terms import *
from bzsa.absint import State
from bzsa.fileenv import FConc, f32, cf

NONE = ("NOP DONE PUSHNIL DUP POP RET0 RET1 ADD SUB MUL DIV MOD POW UNM LAND LOR LNOT BAND BOR BNOT LSHIFT RSHIFT EQ NEQ GT GTE LT LTE "
        "GLOAD GSTORE PUSHT TPUT TGET CALLC CALLS").split()
INT = "PUSHI PUSHS PUSHCN PUSHCC PUSHL LLOAD LSTORE LREMOVE".split()
LABEL = "JUMP JUMPZ JUMPNZ".split()
FLOAT = ["PUSHF"]
MINIMA = {"encoding": 46, "label": 12, "string": 10, "debug": 4, "error": 10, "disassembly": 46, "truncation": 20, "memory": 1000}


def where(C, fn):
    f = C.prog.need(fn)
    return "%s:%s (%s)" % (f.file, f.line, fn)


class Asm:
    def __init__(s, C, text, fail=None, exists=True):
        s.C = C
        s.k = k = FConc(C)
        st = State()
        if exists:
            k.addfile(st, b"p.basm", text)
        k.tag = "assembling %r" % text[-60:].decode("latin1")
        k.fail_at = fail
        pb, ps, pd = k.local(st, "ptr", ZERO), k.local(st, "i32", ZERO), k.local(st, "ptr", ZERO)
        s.st, s.rc = k.call(st, "buzz_asm", mk("str", b"p.basm"), pb, ps, pd)
        s.C.absorb(k.e)
        s.rc = s.k.num(s.st.simp(s.rc), "the result of buzz_asm")
        s.buf = s.st.simp(k.e.load(s.st, pb, "ptr"))
        n = s.st.simp(k.e.load(s.st, ps, "i32"))
        s.size = n.a[0] if n.op == "i" else None
        s.dbg = s.st.simp(k.e.load(s.st, pd, "ptr"))

    def byte(s, i):
        v = s.st.simp(s.k.e.load(s.st, addc(s.buf, i), "i8"))
        return v.a[0] & 255 if v.op == "i" else None

    def i32(s, i):
        v = s.st.simp(s.k.e.load(s.st, addc(s.buf, i), "i32"))
        return v.a[0] if v.op == "i" else show(v)

    def f32(s, i):
        v = s.st.simp(s.k.e.load(s.st, addc(s.buf, i), "f32"))
        return float(v.a[0]) if v.op == "cf" else show(v)

    def info(s, off):
        """(line, col, file) recorded for an offset"""
        k = s.k
        p = k.local(s.st, "i32", I(off))
        st, r = k.call(s.st, "buzzdict_rawget", k.e.load(s.st, addc(s.dbg, s.C.prog.off("buzzdebug_s", "off2script")), "ptr"), p)
        r = st.simp(r)
        if r is ZERO:
            return None
        e = st.simp(k.e.load(st, r, "ptr"))
        o = lambda f: s.C.prog.off("buzzdebug_entry_s", f)
        g = lambda f: st.simp(k.e.load(st, addc(e, o(f)), "i64"))
        return g("line").a[0], g("col").a[0], k.string(st, k.e.load(st, addc(e, o("fname")), "ptr"))


def expect(C, rule, inst, ok, msg, fn="buzz_asm"):
    C.ob(rule, inst)
    if not ok:
        C.fail(rule, inst, where(C, fn), msg)


def opcode(C, n):
    return C.prog.enum("BUZZVM_INSTR_" + n)


def run(C):
    C.assume("files are abstract byte sequences; the C library behaves as documented; malloc succeeds")
    have = {k[len("BUZZVM_INSTR_"):] for k in C.prog.enumvals if k.startswith("BUZZVM_INSTR_") and k != "BUZZVM_INSTR_COUNT"}
    C.ob("encoding", "instruction set")
    if have != set(NONE + INT + FLOAT + LABEL):
        C.notes.append("Instructions not in the specification: %s." % ", ".join(sorted(have ^ set(NONE + INT + FLOAT + LABEL))))
    encoding(C)
    labels(C)
    strings(C)
    debug(C)
    growth(C)
    errors(C)
    disassembly(C)


def encoding(C):
    # every instruction without operand, all separators
    text = b"!0\n\n# a comment\n   # another one\n" + b"".join(b"\t%s%s\n" % (n.lower().encode(), b" \t" * (i % 2)) for i, n in enumerate(NONE))
    A = Asm(C, text)
    expect(C, "encoding", "program without operands", A.rc == 0 and A.size == 2 + len(NONE),
           "assembling all instructions without operand returns %s with %s bytes instead of %d" % (A.rc, A.size, 2 + len(NONE)))
    if A.rc == 0:
        for i, n in enumerate(NONE):
            expect(C, "encoding", n, A.byte(2 + i) == opcode(C, n), "'%s' is encoded as opcode %s instead of %d" % (n.lower(), A.byte(2 + i), opcode(C, n)))
    for vals, fmt in (([0, 1, -1, 2147483647, -2147483648, 256], "%d"),):
        for v in vals:
            A = Asm(C, b"!0\n" + b"".join(b"\t%s %d\n" % (n.lower().encode(), v) for n in INT) + b"nop\n")
            expect(C, "encoding", "integer operand %d" % v, A.rc == 0 and A.size == 3 + 5 * len(INT), "integer operands %d: result %s, %s bytes" % (v, A.rc, A.size))
            if A.rc == 0 and A.size == 3 + 5 * len(INT):
                for i, n in enumerate(INT):
                    a, b = A.byte(2 + 5 * i), A.i32(3 + 5 * i)
                    expect(C, "encoding", "%s %d" % (n, v), a == opcode(C, n) and b == v, "'%s %d' is encoded as opcode %s with operand %s" % (n.lower(), v, a, b))
    for t in (b"010", b"08", b"+7", b"-0012"):
        A = Asm(C, b"!0\n\tpushi " + t + b"\n\tnop\n")
        ok = A.rc == 0 and A.size == 8
        expect(C, "encoding", "PUSHI %s" % t.decode(), ok and A.i32(3) == int(t), "'pushi %s' is encoded with operand %s" % (t.decode(), A.i32(3) if ok else "-"))
    for t in (b"0.0", b"1.5", b"-2.25", b"100", b"0.1", b"3.40282e38"):
        A = Asm(C, b"!0\n\tpushf " + t + b"\n\tnop\n")
        ok = A.rc == 0 and A.size == 8
        expect(C, "encoding", "PUSHF %s" % t.decode(), ok and A.byte(2) == opcode(C, "PUSHF") and A.f32(3) == f32(float(t)),
               "'pushf %s' is encoded as %s, %s" % (t.decode(), A.byte(2) if ok else A.rc, A.f32(3) if ok else "-"))


def labels(C):
    for n in LABEL + INT:
        m = n.lower().encode()
        # backward, forward, and twice
        A = Asm(C, b"!0\n@a\n\tnop\n\t%s @b\n\tpushi 7\n\t%s @a\n\tnop\n@b\n\t%s @a\n@c\n\tdone\n" % (m, m, m))
        want = {3: 19, 13: 2, 19: 2}
        ok = A.rc == 0 and A.size == 25
        expect(C, "label", "%s size" % n, ok, "program with labels: result %s, %s bytes instead of 25" % (A.rc, A.size))
        if ok:
            for p, w in want.items():
                expect(C, "label", "%s at %d" % (n, p), A.byte(p) == opcode(C, n) and A.i32(p + 1) == w,
                       "'%s' to a label at %d is encoded as opcode %s, target %s" % (n.lower(), w, A.byte(p), A.i32(p + 1)))
    # distinct labels stay distinct, also if one is a prefix of the other
    A = Asm(C, b"!0\n\tjump @__label_1\n\tjump @__label_10\n\tjump @__label_100\n@__label_100\n\tnop\n@__label_10  \n\tnop\n@__label_1\n\tnop\n")
    ok = A.rc == 0
    expect(C, "label", "prefixes", ok and [A.i32(3), A.i32(8), A.i32(13)] == [19, 18, 17], "similar labels are confused")
    # many labels
    n = 30
    A = Asm(C, b"!0\n" + b"".join(b"@l%d\n\tjump @l%d\n" % (i, n - 1 - i) for i in range(n)))
    ok = A.rc == 0 and A.size == 2 + 5 * n
    expect(C, "label", "many", ok and all(A.i32(3 + 5 * i) == 2 + 5 * (n - 1 - i) for i in range(n)), "with %d labels some have a wrong position" % n)


STR = [b"a", b"", b"hello world", b"  spaces  ", b"#x", b"@x", b"!3", b"it's", b"tab\there", b"pipe|1,2,f", b"back\\slash", b"new\nline", b"\\n", b"nop", b"\xc3\xa9"]


def esc(b):
    return b.replace(b"\\", b"\\\\").replace(b"\n", b"\\n")


def strings(C):
    for group in [[x] for x in STR] + [STR]:
        A = Asm(C, b"!%d\n" % len(group) + b"".join(b"'" + esc(x) + b"\n" for x in group) + b"\n\tnop\n")
        want = struct.pack("<H", len(group)) + b"".join(x + b"\0" for x in group) + bytes([opcode(C, "NOP")])
        ok = A.rc == 0 and A.size == len(want)
        got = bytes(A.byte(i) or 0 for i in range(A.size)) if ok else b""
        expect(C, "string", "strings %r" % (group[0] if len(group) == 1 else "all"), ok and got == want,
               "strings %r are encoded as %r instead of %r" % (group[:1], got[:40], want[:40]))
    for n in (0, 1, 300, 65535):
        A = Asm(C, b"!%d\n" % n)
        v = [A.byte(0), A.byte(1)] if A.rc == 0 and A.size == 2 else None
        expect(C, "string", "count %d" % n, v == [n & 255, n >> 8], "the string count %d is encoded as %s" % (n, v))


def debug(C):
    A = Asm(C, b"!0\n\tpushi 3\t|10,4,/d/f.bzz\n\tnop\t|3000000001,70000,/d/f.bzz\n@l\t|4000000000,1,/d/g.bzz\n\tdone\n\tjump @l\t|7,8,/d/h.bzz\n")
    ok = A.rc == 0 and A.size == 14
    expect(C, "debug", "annotated program", ok, "annotated program: result %s, %s bytes instead of 14" % (A.rc, A.size))
    if ok:
        for off, w in ((2, (10, 4, b"/d/f.bzz")), (7, (3000000001, 70000, b"/d/f.bzz")), (8, (4000000000, 1, b"/d/g.bzz")), (9, (7, 8, b"/d/h.bzz")), (3, None)):
            g = A.info(off)
            expect(C, "debug", "offset %d" % off, g == w, "the debug information of offset %d is %s instead of %s" % (off, g, w))
        expect(C, "debug", "label", A.byte(9) == opcode(C, "JUMP") and A.i32(10) == 8, "an annotated label is not found")


def growth(C):
    """the end of the buffer (any capacity) falls at every offset of an operand and of a string"""
    for pad in range(244, 258) if C.tier == "quick" else range(236, 270):
        A = Asm(C, b"!1\n'" + b"x" * pad + b"\n\tpushi 123456\n\tjump @e\n\tnop\n\tpushf 2.5\n@e\n\tdone\n")
        o = 3 + pad
        ok = A.rc == 0 and A.size == o + 17
        expect(C, "encoding", "buffer growth at %d" % pad, ok and A.i32(o + 1) == 123456 and A.i32(o + 6) == o + 16 and A.f32(o + 12) == 2.5 and
               A.byte(o + 16) == opcode(C, "DONE"), "a program of %s bytes is not encoded as a shorter one" % A.size)


def errors(C):
    for what, text in (("unknown instruction", b"!0\n\tfoo\n"), ("unknown instruction with a known prefix", b"!0\n\tpushii 3\n"), ("upper case", b"!0\n\tNOP\n"),
                       ("missing integer", b"!0\n\tpushi\n"), ("missing float", b"!0\n\tpushf\n"), ("missing label", b"!0\n\tjump\n"),
                       ("missing operand before a comment", b"!0\n\tlload \t|1,1,f\n"),
                       ("unknown label", b"!0\n\tjump @x\n\tnop\n"), ("unknown label among known ones", b"!0\n@y\n\tjump @y\n\tjumpz @x\n\tjump @y\n"),
                       ("not a number", b"!0\n\tpushi abc\n"), ("label past the end", b"!0\n\tjump @x\n@x\n")):
        A = Asm(C, text)
        expect(C, "error", what, A.rc == 2, "%s: buzz_asm() returns %s instead of 2" % (what, A.rc))
        expect(C, "error", what + " message", bool(A.st.ghost.get("diag")), "%s: no message is printed" % what)
    A = Asm(C, b"", exists=False)
    expect(C, "error", "file not found", A.rc == 1, "a file that cannot be opened: buzz_asm() returns %s instead of 1" % A.rc)
    for n in (1, 2, 3):
        A = Asm(C, b"!0\n\tnop\n\tdone\n", fail=("getline", n))
        expect(C, "error", "read error at line %d" % n, A.rc == 1, "a read error at line %d: buzz_asm() returns %s instead of 1" % (n, A.rc))


def deasm(C, bc, dbg=(), fail=None, tag="disassembly"):
    k = FConc(C)
    st = State()
    k.fail_at = None
    k.tag = tag
    t = k.alloc(st, len(bc))
    for i, b in enumerate(bc):
        if b is None:
            continue
        st.mem[addc(t, i)] = (b if isinstance(b, T) else I(b), "i8") if not isinstance(b, tuple) else b
    st, d = k.call(st, "buzzdebug_new")
    for off, l, c, f in dbg:
        st, _ = k.call(st, "buzzdebug_info_set", d, I(off), I(l), I(c), mk("str", f))
    k.fail_at = fail
    st, rc = k.call(st, "buzz_deasm", t, I(len(bc)), d, mk("str", b"o.basm"))
    C.absorb(k.e)
    return k.num(st.simp(rc), "the result of buzz_deasm"), (k.output(st, b"o.basm") or b""), st


def lines(out):
    r = []
    for l in out.split(b"\n"):
        l, _, dbg = l.partition(b"|")
        if b":" in l and l.strip()[:1].isdigit():
            o, _, rest = l.partition(b":")
            r.append((int(o), rest.split(), dbg.strip()))
    return r


def enc(C, n, v=None):
    b = [opcode(C, n)]
    if v is None:
        return b
    if n in FLOAT:
        return b + [(cf(f32(v)), "f32"), None, None, None]
    return b + list(struct.pack("<i", v))


def disassembly(C):
    bc = [2, 0] + list(b"ab\0") + list(b"c\nd\0")
    want = []
    for n in NONE:
        want.append((len(bc), n, None))
        bc += enc(C, n)
    for i, n in enumerate(INT + LABEL):
        v = (5, -1, 70000, 0)[i % 4]
        want.append((len(bc), n, v))
        bc += enc(C, n, v)
    bc += enc(C, "NOP")
    want.append((len(bc) - 1, "NOP", None))
    dbg = [(want[1][0], 12, 3, b"/d/x.bzz"), (want[len(NONE)][0], 13, 4, b"/d/y.bzz")]
    rc, out, st = deasm(C, bc, dbg)
    expect(C, "disassembly", "result", rc == 0, "disassembling a correct program returns %s" % rc, "buzz_deasm")
    got = {o: (a, d) for o, a, d in lines(out)}
    expect(C, "disassembly", "number of instructions", len(got) == len(want), "%d instructions are printed instead of %d" % (len(got), len(want)), "buzz_deasm")
    for o, n, v in want:
        a, d = got.get(o, ([], b""))
        w = [n.lower().encode()] + ([str(v).encode()] if v is not None else [])
        expect(C, "disassembly", n, a == w, "the instruction '%s' at %d is printed as %r" % (b" ".join(w).decode(), o, b" ".join(a)), "buzz_deasm")
        x = [b"%d,%d,%s" % (l, c, f) for p, l, c, f in dbg if p == o]
        expect(C, "disassembly", "debug information of " + n, d == (x[0] if x else b""), "the debug information of offset %d is printed as %r" % (o, d), "buzz_deasm")
    ss = [l[1:] for l in out.split(b"\n") if l[:1] == b"'"]
    expect(C, "disassembly", "strings", out[:3] == b"!2\n" and ss == [esc(b"ab"), esc(b"c\nd")], "strings are printed as %r" % ss, "buzz_deasm")
    # float operand
    for v in (0.0, 2.5, -100.0):
        rc, out, st = deasm(C, [0, 0] + enc(C, "PUSHF", v) + [opcode(C, "NOP")], tag="disassembly of a float")
        g = lines(out)
        ok = rc == 0 and len(g) == 2 and g[0][:1] == (2,) and g[0][1][:1] == [b"pushf"] and len(g[0][1]) == 2 and float(g[0][1][1]) == v and g[1][0] == 7
        expect(C, "disassembly", "PUSHF %s" % v, ok, "pushf %s is printed as %r" % (v, g[:2]), "buzz_deasm")
    # unknown opcode
    for op in (C.prog.enum("BUZZVM_INSTR_COUNT"), 255):
        rc, out, st = deasm(C, [0, 0, opcode(C, "NOP"), op])
        expect(C, "error", "unknown opcode %d" % op, rc == 2, "bytecode with the unknown opcode %d: buzz_deasm() returns %s" % (op, rc), "buzz_deasm")
    rc, out, st = deasm(C, [0, 0, 0], fail=("fopen", 1))
    expect(C, "error", "output cannot be opened", rc == 1, "an output that cannot be opened: buzz_deasm() returns %s" % rc, "buzz_deasm")
    for op, n in (("fprintf", 1), ("fprintf", 2), ("fclose", 1)):
        rc, out, st = deasm(C, [0, 0, 0, 1], fail=(op, n))
        expect(C, "error", "write error (%s %d)" % (op, n), rc == 1, "a write error: buzz_deasm() returns %s" % rc, "buzz_deasm")
    # every truncation
    prog = [2, 0] + list(b"ab\0") + list(b"c\0") + enc(C, "PUSHI", 5) + enc(C, "PUSHNIL") + enc(C, "JUMP", 7) + enc(C, "DONE")
    ends = {len(prog), len(prog) - 1, 12, 13, 7}
    for n in range(len(prog) + 1):
        rc, out, st = deasm(C, prog[:n], tag="disassembly of %d bytes of a program" % n)
        expect(C, "truncation", "%d bytes" % n, rc in ((0,) if n in ends - {len(prog) - 1} else (0, 2) if n == len(prog) - 1 else (2,)),
               "a program truncated to %d bytes: buzz_deasm() returns %s" % (n, rc), "buzz_deasm")
