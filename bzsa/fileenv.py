"""Conc plus an abstract file system and the C library functions that the compiler tool chain uses.

Files are byte strings (or sequences of abstract cells, for binary records); every operation on them can be made to fail.
Text written to a stream is collected; diagnostics (stderr, stdout) are counted only."""
import re, struct
from .terms import *
from .absint import INF
from .ir import AnalysisError
from .conc import Conc, SZ, wrap

CT = {}


def ctype(c):
    """glibc's classification bits of the C locale (little endian)"""
    ch = chr(c) if 0 <= c < 128 else None
    if ch is None:
        return 0
    b = 0
    up, lo, dg = ch.isupper(), ch.islower(), ch.isdigit()
    b |= 0x100 * up | 0x200 * lo | 0x400 * (up or lo) | 0x800 * dg
    b |= 0x1000 * (ch in "0123456789abcdefABCDEF") | 0x2000 * (ch in " \t\n\v\f\r")
    b |= 0x4000 * (32 <= c < 127) | 0x8000 * (33 <= c < 127) | 0x1 * (ch in " \t") | 0x2 * (c < 32 or c == 127)
    b |= 0x4 * (33 <= c < 127 and not (up or lo or dg)) | 0x8 * (up or lo or dg)
    return b


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def cf(x):
    """the canonical term of a float constant"""
    x = float(x)
    return mk("cf", repr(x) if x != x or x in (float("inf"), float("-inf")) or x != int(x) or abs(x) > 1e15 else str(int(x)))


class FConc(Conc):
    def __init__(s, C):
        Conc.__init__(s, C)
        m = s.e.models
        for n in ("fopen", "fclose", "getline", "fread", "fwrite", "feof", "ferror", "fseek", "ftell", "rewind", "fflush", "fgets", "fputs",
                  "fputc", "fprintf", "printf", "asprintf", "sprintf", "snprintf", "perror", "strsep", "strchr", "strrchr", "strtol", "strtoul",
                  "strtof", "strtod", "atoi", "atof", "strcpy", "strncpy", "strcat", "strncat", "memchr", "getenv", "realpath", "strcspn",
                  "strtoull", "strtoll", "strspn", "strpbrk", "strstr", "puts", "putchar", "fwrite_unlocked", "strndup", "strnlen", "memcmp", "stpcpy",
                  "putc", "clearerr", "strtok", "strtok_r", "vasprintf", "fgetc", "getc",
                  "fseeko", "ftello", "bzero", "bcmp", "atol", "vsnprintf", "vfprintf"):
            h = getattr(s, "x_" + n, None)
            if h:
                m[n] = s.wrapm(h)
                if n.startswith("strto"):
                    m["__isoc23_" + n] = m[n]
        for n, bit in (("isspace", 0x2000), ("isdigit", 0x800), ("isalpha", 0x400), ("isalnum", 0x8), ("isupper", 0x100), ("islower", 0x200)):
            m[n] = s.wrapm(lambda st, a, fn, ins, bit=bit: I(1 if ctype(s.num(st.simp(a[0]), "a character") & 255) & bit else 0))
        m["__ctype_b_loc"] = s.wrapm(s.x_ctype)
        m["exit"] = s.m_exit
        m["abort"] = s.m_exit
        s.fail_at = None          # (operation, n-th) that fails

    def wrapm(s, h):
        def m(e, st, args, fn, ins):
            return st, h(st, args, fn, ins)
        return m

    def m_exit(s, e, st, args, fn, ins):
        st.ghost["exit"] = (ins["callee"][1], st.simp(args[0]) if args else None)
        e.exits.append((st, fn, ins.get("line"), ins["callee"][1]))
        return None

    # ---- files ---------------------------------------------------------------------------
    def addfile(s, st, name, data):
        st.ghost[("file", name)] = data

    def output(s, st, name):
        return st.ghost.get(("file", name))

    def failing(s, st, op):
        n = st.ghost.get(("ops", op), 0) + 1
        st.ghost[("ops", op)] = n
        return s.fail_at == (op, n)

    def h(s, st, t, fn, ins):
        t = st.simp(t)
        r = st.ghost.get(("fh", t))
        if r is None and t.op in ("ld",):
            return None             # stderr, stdout
        if r is None:
            s.bad(st, fn, ins, "use of a stream that is not open")
        return r

    def set(s, st, t, **k):
        t = st.simp(t)
        r = dict(st.ghost[("fh", t)])
        r.update(k)
        st.ghost[("fh", t)] = r

    def x_fopen(s, st, a, fn, ins):
        n = s.strarg(st, a[0], fn, ins, "fopen")
        mode = s.strarg(st, a[1], fn, ins, "fopen")
        if s.failing(st, "fopen"):
            return ZERO
        if mode[:1] == b"r":
            if ("file", n) not in st.ghost:
                return ZERO
        else:
            st.ghost[("file", n)] = b""
        t = mk("sym", "FILE", st.ghost.get("nfiles", 0))
        st.ghost["nfiles"] = st.ghost.get("nfiles", 0) + 1
        st.facts[t] = (1, INF, frozenset())
        st.ghost[("fh", t)] = {"name": n, "mode": mode, "pos": 0, "eof": False, "err": False}
        return t

    def x_fclose(s, st, a, fn, ins):
        r = s.h(st, a[0], fn, ins)
        if r:
            st.ghost[("fh", st.simp(a[0]))] = None
            if s.failing(st, "fclose") and r["mode"][:1] != b"r":
                return I(-1)
        return ZERO

    def x_fflush(s, st, a, fn, ins):
        if st.simp(a[0]) is ZERO:
            return ZERO
        r = s.h(st, a[0], fn, ins)
        if r and s.failing(st, "fflush"):
            s.set(st, a[0], err=True)
            return I(-1)
        return ZERO

    def x_ferror(s, st, a, fn, ins):
        r = s.h(st, a[0], fn, ins)
        return I(int(bool(r and r["err"])))

    def x_feof(s, st, a, fn, ins):
        r = s.h(st, a[0], fn, ins)
        return I(int(bool(r and r["eof"])))

    def x_fseek(s, st, a, fn, ins):
        r = s.h(st, a[0], fn, ins)
        off, wh = s.num(st.simp(a[1]), "an offset"), s.num(st.simp(a[2]), "an offset")
        if r:
            s.set(st, a[0], pos=off + (0, r["pos"], len(st.ghost[("file", r["name"])]))[wh], eof=False)
        return ZERO

    def x_ftell(s, st, a, fn, ins):
        r = s.h(st, a[0], fn, ins)
        return I(r["pos"] if r else -1)

    x_fseeko, x_ftello = x_fseek, x_ftell

    def x_clearerr(s, st, a, fn, ins):
        if s.h(st, a[0], fn, ins):
            s.set(st, a[0], eof=False, err=False)

    def x_fgetc(s, st, a, fn, ins):
        r = s.h(st, a[0], fn, ins)
        if not r:
            return I(-1)
        if s.failing(st, "fread"):
            s.set(st, a[0], err=True)
            return I(-1)
        d = st.ghost[("file", r["name"])][r["pos"]:r["pos"] + 1]
        if not d:
            s.set(st, a[0], eof=True)
            return I(-1)
        s.set(st, a[0], pos=r["pos"] + 1)
        return I(d[0])

    x_getc = x_fgetc

    def x_rewind(s, st, a, fn, ins):
        if s.h(st, a[0], fn, ins):
            s.set(st, a[0], pos=0, eof=False, err=False)

    def x_getline(s, st, a, fn, ins):
        r = s.h(st, a[2], fn, ins)
        if not r:
            return I(-1)
        if s.failing(st, "getline"):
            s.set(st, a[2], err=True)
            return I(-1)
        d = st.ghost[("file", r["name"])][r["pos"]:]
        if not d:
            s.set(st, a[2], eof=True)
            return I(-1)
        i = d.find(b"\n")
        line = d if i < 0 else d[:i + 1]
        s.set(st, a[2], pos=r["pos"] + len(line), eof=i < 0)
        s.access(st, a[0], 8, fn, ins, "getline")
        old = st.simp(s.e.load(st, a[0], "ptr"))
        if old is not ZERO and s.live(st, old, fn, ins, "getline"):
            s.kill(st, old)
        t = s.newstr(st, line)
        s.e.store(st, a[0], t, "ptr")
        s.e.store(st, a[1], I(len(line) + 1), "i64")
        return I(len(line))

    def x_fgets(s, st, a, fn, ins):
        r = s.h(st, a[2], fn, ins)
        n = s.num(st.simp(a[1]), "a size")
        if not r:
            return ZERO
        if s.failing(st, "fgets"):
            s.set(st, a[2], err=True)
            return ZERO
        d = st.ghost[("file", r["name"])][r["pos"]:]
        if not d:
            s.set(st, a[2], eof=True)
            return ZERO
        i = d.find(b"\n")
        line = (d if i < 0 else d[:i + 1])[:n - 1]
        s.set(st, a[2], pos=r["pos"] + len(line))
        s.put(st, a[0], line + b"\0", fn, ins, "fgets")
        return a[0]

    def put(s, st, p, bs, fn, ins, what):
        if s.access(st, p, len(bs), fn, ins, what):
            p = st.simp(p)
            for o, c in s.cells(st, p, len(bs)):
                del st.mem[addc(p, o)]
            for i, b in enumerate(bs):
                st.mem[addc(p, i)] = (b if isinstance(b, T) else I(b), "i8")

    def x_fread(s, st, a, fn, ins):
        z, n = s.num(st.simp(a[1]), "a size"), s.num(st.simp(a[2]), "a count")
        r = s.h(st, a[3], fn, ins)
        if not r:
            return ZERO
        if s.failing(st, "fread"):
            s.set(st, a[3], err=True)
            return ZERO
        f = st.ghost[("file", r["name"])]
        d = f[r["pos"]:r["pos"] + z * n]
        got = len(d) // z if z else 0
        if len(d) < z * n:
            s.set(st, a[3], eof=True)
        if z * n:
            s.access(st, a[0], z * n, fn, ins, "fread")
        s.set(st, a[3], pos=r["pos"] + len(d))
        if d:
            s.put(st, a[0], d, fn, ins, "fread")
        return I(got)

    def x_fwrite(s, st, a, fn, ins):
        z, n = s.num(st.simp(a[1]), "a size"), s.num(st.simp(a[2]), "a count")
        r = s.h(st, a[3], fn, ins)
        if r is None:
            return I(n)
        if s.failing(st, "fwrite"):
            s.set(st, a[3], err=True)
            return ZERO
        if z * n:
            s.access(st, a[0], z * n, fn, ins, "fwrite")
        out = []
        for i in range(z * n):
            v = s.e.load(st, addc(st.simp(a[0]), i), "i8")
            if v.op != "i":
                raise AnalysisError("%s: a written byte is not determined (%s)" % (s.tag, show(v)))
            out.append(v.a[0] & 255)
        s.emit(st, a[3], bytes(out))
        return I(n)

    def emit(s, st, t, bs):
        r = st.ghost[("fh", st.simp(t))]
        k = ("file", r["name"])
        st.ghost[k] = st.ghost[k] + bs

    # ---- formatting ----------------------------------------------------------------------
    def format(s, st, fmt, args, fn, ins):
        out, i, pos = b"", 0, 0
        for m in re.finditer(rb"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])", fmt):
            out += fmt[pos:m.start()]
            pos = m.end()
            c = m.group(5)
            if c == b"%":
                out += b"%"
                continue
            if i >= len(args):
                s.bad(st, fn, ins, "a format with too few arguments")
                break
            v = st.simp(args[i])
            i += 1
            spec = "%" + (m.group(1) or b"").decode() + (m.group(2) or b"").decode() + ("." + m.group(3).decode() if m.group(3) else "")
            if c == b"s":
                b = s.strarg(st, v, fn, ins, "formatting of a string")
                t = b if b is not None else b"(null)"
                if m.group(3):
                    t = t[:int(m.group(3))]
                out += t
            elif c == b"c":
                out += bytes([s.num(v, "a character") & 255])
            elif c in b"dixXou":
                n = s.num(v, "a formatted number")
                w = 64 if m.group(4) in (b"l", b"ll", b"z", b"j", b"t") else 32
                n &= (1 << w) - 1
                if c in b"di" and n >> (w - 1):
                    n -= 1 << w
                out += ((spec + {b"d": "d", b"i": "d", b"u": "d", b"x": "x", b"X": "X", b"o": "o"}[c]) % n).encode()
            elif c in b"fgeE":
                if v.op == "cf":
                    out += ((spec + c.decode()) % float(v.a[0])).encode()
                else:
                    raise AnalysisError("%s: a formatted float is not determined (%s)" % (s.tag, show(v)))
            elif c == b"p":
                out += b"0x0"
            else:
                raise AnalysisError("%s: unsupported format %r" % (s.tag, fmt))
        return out + fmt[pos:]

    def x_fprintf(s, st, a, fn, ins):
        r = s.h(st, a[0], fn, ins)
        if r is None:
            st.ghost["diag"] = st.ghost.get("diag", 0) + 1
            return I(1)
        if s.failing(st, "fprintf"):
            s.set(st, a[0], err=True)
            return I(-1)
        out = s.format(st, s.strarg(st, a[1], fn, ins, "fprintf"), a[2:], fn, ins)
        s.emit(st, a[0], out)
        return I(len(out))

    def x_printf(s, st, a, fn, ins):
        return I(1)

    x_puts = x_putchar = x_printf

    def x_perror(s, st, a, fn, ins):
        st.ghost["diag"] = st.ghost.get("diag", 0) + 1

    def x_fputs(s, st, a, fn, ins):
        r = s.h(st, a[1], fn, ins)
        if r:
            if s.failing(st, "fprintf"):
                s.set(st, a[1], err=True)
                return I(-1)
            s.emit(st, a[1], s.strarg(st, a[0], fn, ins, "fputs"))
        else:
            st.ghost["diag"] = st.ghost.get("diag", 0) + 1
        return I(1)

    def x_fputc(s, st, a, fn, ins):
        r = s.h(st, a[1], fn, ins)
        if r:
            if s.failing(st, "fprintf"):
                s.set(st, a[1], err=True)
                return I(-1)
            s.emit(st, a[1], bytes([s.num(st.simp(a[0]), "a character") & 255]))
        return a[0]

    x_putc = x_fputc

    def x_asprintf(s, st, a, fn, ins):
        out = s.format(st, s.strarg(st, a[1], fn, ins, "asprintf"), a[2:], fn, ins)
        s.access(st, a[0], 8, fn, ins, "asprintf")
        s.e.store(st, a[0], s.newstr(st, out), "ptr")
        return I(len(out))

    def x_sprintf(s, st, a, fn, ins):
        out = s.format(st, s.strarg(st, a[1], fn, ins, "sprintf"), a[2:], fn, ins)
        s.put(st, a[0], out + b"\0", fn, ins, "sprintf")
        return I(len(out))

    def x_snprintf(s, st, a, fn, ins):
        n = s.num(st.simp(a[1]), "a size")
        out = s.format(st, s.strarg(st, a[2], fn, ins, "snprintf"), a[3:], fn, ins)
        if n:
            s.put(st, a[0], out[:n - 1] + b"\0", fn, ins, "snprintf")
        return I(len(out))

    # ---- strings -------------------------------------------------------------------------
    def x_strcpy(s, st, a, fn, ins):
        b = s.strarg(st, a[1], fn, ins, "strcpy")
        if b is not None:
            s.put(st, a[0], b + b"\0", fn, ins, "strcpy")
        return a[0]

    def x_stpcpy(s, st, a, fn, ins):
        b = s.strarg(st, a[1], fn, ins, "stpcpy")
        if b is None:
            return a[0]
        s.put(st, a[0], b + b"\0", fn, ins, "stpcpy")
        return addc(st.simp(a[0]), len(b))

    def x_strnlen(s, st, a, fn, ins):
        n = s.num(st.simp(a[1]), "a length")
        for i in range(n):
            if not s.access(st, addc(st.simp(a[0]), i), 1, fn, ins, "strnlen"):
                return I(i)
            if st.simp(s.e.load(st, addc(st.simp(a[0]), i), "i8")) is ZERO:
                return I(i)
        return I(n)

    def x_bzero(s, st, a, fn, ins):
        n = s.num(st.simp(a[1]), "a length")
        if n:
            s.put(st, a[0], b"\0" * n, fn, ins, "bzero")

    def x_bcmp(s, st, a, fn, ins):
        return s.x_memcmp(st, a, fn, ins)

    def x_vsnprintf(s, st, a, fn, ins):
        n = s.num(st.simp(a[1]), "a size")
        if n:
            s.put(st, a[0], b"message"[:n - 1] + b"\0", fn, ins, "vsnprintf")
        return I(7)

    def x_vfprintf(s, st, a, fn, ins):
        if s.h(st, a[0], fn, ins):
            raise AnalysisError("%s: vfprintf() to a file" % s.tag)
        st.ghost["diag"] = st.ghost.get("diag", 0) + 1
        return I(7)

    def x_strncpy(s, st, a, fn, ins):
        n = s.num(st.simp(a[2]), "a length")
        b = b""
        for i in range(n):
            if not s.access(st, addc(st.simp(a[1]), i), 1, fn, ins, "strncpy"):
                return a[0]
            v = s.e.load(st, addc(st.simp(a[1]), i), "i8")
            if v.op != "i":
                s.bad(st, fn, ins, "strncpy of memory that was never initialised")
                return a[0]
            if v.a[0] == 0:
                break
            b += bytes([v.a[0] & 255])
        if n:
            s.put(st, a[0], b + b"\0" * (n - len(b)), fn, ins, "strncpy")
        return a[0]

    def x_strcat(s, st, a, fn, ins):
        b = s.strarg(st, a[1], fn, ins, "strcat")
        d = s.strarg(st, a[0], fn, ins, "strcat")
        if b is not None and d is not None:
            s.put(st, addc(st.simp(a[0]), len(d)), b + b"\0", fn, ins, "strcat")
        return a[0]

    def x_strncat(s, st, a, fn, ins):
        b = s.strarg(st, a[1], fn, ins, "strncat")
        d = s.strarg(st, a[0], fn, ins, "strncat")
        n = s.num(st.simp(a[2]), "a length") & (2 ** 64 - 1)
        if b is not None and d is not None:
            s.put(st, addc(st.simp(a[0]), len(d)), b[:n] + b"\0", fn, ins, "strncat")
        return a[0]

    def x_strndup(s, st, a, fn, ins):
        b = s.strarg(st, a[0], fn, ins, "strndup")
        return s.newstr(st, (b or b"")[:s.num(st.simp(a[1]), "a length")])

    def find(s, st, a, fn, ins, what, f):
        b = s.strarg(st, a, fn, ins, what)
        i = f(b) if b is not None else -1
        return ZERO if i < 0 else addc(st.simp(a), i)

    def x_strchr(s, st, a, fn, ins):
        c = s.num(st.simp(a[1]), "a character") & 255
        return s.find(st, a[0], fn, ins, "strchr", lambda b: (b + b"\0").find(bytes([c])))

    def x_strrchr(s, st, a, fn, ins):
        c = s.num(st.simp(a[1]), "a character") & 255
        return s.find(st, a[0], fn, ins, "strrchr", lambda b: (b + b"\0").rfind(bytes([c])))

    def x_strstr(s, st, a, fn, ins):
        n = s.strarg(st, a[1], fn, ins, "strstr")
        return s.find(st, a[0], fn, ins, "strstr", lambda b: b.find(n))

    def x_strpbrk(s, st, a, fn, ins):
        n = s.strarg(st, a[1], fn, ins, "strpbrk")
        return s.find(st, a[0], fn, ins, "strpbrk", lambda b: min([b.find(bytes([c])) for c in n if bytes([c]) in b], default=-1))

    def x_strcspn(s, st, a, fn, ins):
        b, n = s.strarg(st, a[0], fn, ins, "strcspn"), s.strarg(st, a[1], fn, ins, "strcspn")
        i = 0
        while i < len(b) and b[i] not in n:
            i += 1
        return I(i)

    def x_strspn(s, st, a, fn, ins):
        b, n = s.strarg(st, a[0], fn, ins, "strspn"), s.strarg(st, a[1], fn, ins, "strspn")
        i = 0
        while i < len(b) and b[i] in n:
            i += 1
        return I(i)

    def x_memchr(s, st, a, fn, ins):
        n = s.num(st.simp(a[2]), "a length")
        c = s.num(st.simp(a[1]), "a character") & 255
        if n and not s.access(st, a[0], n, fn, ins, "memchr"):
            return ZERO
        for i in range(n):
            v = s.e.load(st, addc(st.simp(a[0]), i), "i8")
            if v.op == "i" and v.a[0] & 255 == c:
                return addc(st.simp(a[0]), i)
        return ZERO

    def x_strsep(s, st, a, fn, ins):
        s.access(st, a[0], 8, fn, ins, "strsep")
        p = st.simp(s.e.load(st, a[0], "ptr"))
        if p is ZERO:
            return ZERO
        b = s.strarg(st, p, fn, ins, "strsep")
        d = s.strarg(st, a[1], fn, ins, "strsep")
        if b is None:
            return ZERO
        for i, c in enumerate(b):
            if c in d:
                st.mem[addc(p, i)] = (ZERO, "i8")
                s.e.store(st, a[0], addc(p, i + 1), "ptr")
                return p
        s.e.store(st, a[0], ZERO, "ptr")
        return p

    def number(s, st, a, fn, ins, what, rx, conv):
        b = s.strarg(st, a[0], fn, ins, what)
        m = re.match(rb"[ \t\n\v\f\r]*(" + rx + rb")", b or b"")
        end = m.end() if m else 0
        if len(a) > 1 and st.simp(a[1]) is not ZERO:
            s.access(st, a[1], 8, fn, ins, what)
            s.e.store(st, a[1], addc(st.simp(a[0]), end), "ptr")
        return conv(m.group(1) if m else None)

    def intrx(s, st, a):
        """regular expression of an integer in the base given, and its conversion"""
        base = s.num(st.simp(a[2]), "a base") if len(a) > 2 else 10
        dig = lambda n: b"[" + bytes("0123456789abcdefghijklmnopqrstuvwxyz"[:n] + "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[:max(0, n - 10)], "ascii") + b"]+"
        rx = {10: rb"\d+", 0: rb"0[xX][0-9a-fA-F]+|0[0-7]*|[1-9]\d*", 16: rb"(?:0[xX])?[0-9a-fA-F]+"}.get(base, dig(base or 10))

        def conv(t):
            t = t.decode()
            sg = -1 if t[0] == "-" else 1
            t = t.lstrip("+-").lower()
            if base == 0:
                return sg * (int(t, 16) if t.startswith("0x") else int(t, 8) if t.startswith("0") else int(t))
            return sg * int(t, base)
        return rb"[-+]?(?:" + rx + rb")", conv

    def x_strtol(s, st, a, fn, ins):
        rx, val = s.intrx(st, a)
        return s.number(st, a, fn, ins, "strtol", rx, lambda t: I(0 if t is None else max(-2 ** 63, min(2 ** 63 - 1, val(t)))))

    x_strtoll = x_strtol

    def x_strtoul(s, st, a, fn, ins):
        rx, val = s.intrx(st, a)

        def conv(t):
            if t is None:
                return ZERO
            n = val(t)
            return I(wrap(n if -2 ** 64 < n < 2 ** 64 else 2 ** 64 - 1, 64))
        return s.number(st, a, fn, ins, "strtoul", rx, conv)

    x_strtoull = x_strtoul

    def x_atoi(s, st, a, fn, ins):
        return s.number(st, a[:1], fn, ins, "atoi", rb"[-+]?\d+", lambda t: I(0 if t is None else wrap(int(t), 32)))

    def x_atol(s, st, a, fn, ins):
        return s.number(st, a[:1], fn, ins, "atol", rb"[-+]?\d+", lambda t: I(int(t or b"0")))

    FLT = rb"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"

    def x_strtof(s, st, a, fn, ins):
        return s.number(st, a, fn, ins, "strtof", s.FLT, lambda t: cf(f32(float(t or b"0"))))

    def x_strtod(s, st, a, fn, ins):
        return s.number(st, a, fn, ins, "strtod", s.FLT, lambda t: cf(float(t or b"0")))

    def x_atof(s, st, a, fn, ins):
        return s.number(st, a[:1], fn, ins, "atof", s.FLT, lambda t: cf(float(t or b"0")))

    def x_memcmp(s, st, a, fn, ins):
        n = s.num(st.simp(a[2]), "a length")
        r = []
        for p in a[:2]:
            if n and not s.access(st, p, n, fn, ins, "memcmp"):
                return ZERO
            r.append([s.num(s.e.load(st, addc(st.simp(p), i), "i8"), "a compared byte") & 255 for i in range(n)])
        return I((r[0] > r[1]) - (r[0] < r[1]))

    def x_getenv(s, st, a, fn, ins):
        v = st.ghost.get(("env", s.strarg(st, a[0], fn, ins, "getenv")))
        return ZERO if v is None else mk("str", v)

    def x_realpath(s, st, a, fn, ins):
        n = s.strarg(st, a[0], fn, ins, "realpath")
        return s.newstr(st, n if n[:1] == b"/" else b"/d/" + n)

    def x_ctype(s, st, a, fn, ins):
        p = st.ghost.get("ctype")
        if p is None:
            t = s.alloc(st, 768)
            for c in range(-128, 256):
                st.mem[addc(t, 2 * (c + 128))] = (I(ctype(c)), "i16")
            p = s.alloc(st, 8)
            st.mem[p] = (addc(t, 256), "ptr")
            st.ghost["ctype"] = p
        return p
