"""Abstract models: libc, and the interface functions of Buzz's own containers.

A model replaces a callee by its documented effect; the callee's own code is checked
against that effect by the container properties."""
from .terms import *


def pure(name):
    def m(e, st, args, fn, ins):
        w = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}.get(ins["ty"])
        return st, mk("call", name, *args, width=w)
    return m


def nop(e, st, args, fn, ins):
    return st, (ZERO if ins["ty"] != "void" else None)


def m_malloc(e, st, args, fn, ins):
    return st, e.new_obj(st, e.site(fn, ins))


def m_calloc(e, st, args, fn, ins):
    return st, e.new_obj(st, e.site(fn, ins), zero=True)


def m_free(e, st, args, fn, ins):
    st.ev_add("free", args[0])
    return st, None


def m_realloc(e, st, args, fn, ins):
    t = e.new_obj(st, e.site(fn, ins))
    p = st.simp(args[0])
    for a in list(st.mem):
        d = sub(a, p)
        if d.op == "i" and 0 <= d.a[0] < 4096:
            st.mem[addc(t, d.a[0])] = st.mem[a]
    st.ev_add("realloc", args[0], args[1], t)
    return st, t


def m_memcpy(e, st, args, fn, ins):
    e.memcpy(st, args[0], args[1], args[2])
    return st, args[0]


def m_memset(e, st, args, fn, ins):
    e.memset(st, args[0], args[1], args[2])
    return st, args[0]


def m_strdup(e, st, args, fn, ins):
    t = e.new_obj(st, e.site(fn, ins))
    st.ghost[("dupof", t)] = args[0]
    return st, t


def m_exit(e, st, args, fn, ins):
    e.exits.append((st, fn, ins.get("line"), ins["callee"][1]))
    return None


def text(st, p):
    """the string a pointer denotes: formatted buffers stand for their text"""
    return st.ghost.get(("text", p), p)


def m_sprintf(e, st, args, fn, ins):
    st.ghost[("text", args[0])] = mk("fmtstr", *args[1:])
    return st, e.fresh(st, e.site(fn, ins), ins["ty"])


def m_snprintf(e, st, args, fn, ins):
    st.ghost[("text", args[0])] = mk("fmtstr", *args[2:])
    return st, e.fresh(st, e.site(fn, ins), ins["ty"])


def m_asprintf(e, st, args, fn, ins):
    t = e.new_obj(st, e.site(fn, ins))
    e.store(st, args[0], t, "ptr")
    return st, e.fresh(st, e.site(fn, ins) + ("n",), ins["ty"])


def m_strcmp(e, st, args, fn, ins):
    a, b = text(st, args[0]), text(st, args[1])
    if a is b:
        return st, ZERO
    if a.op == "str" and b.op == "str":
        return st, I((a.a[0] > b.a[0]) - (a.a[0] < b.a[0]))
    return st, strcmp_term(a, b)


def strcmp_term(a, b):
    """only the sign is meaningful, and it flips with the operands"""
    if a.uid <= b.uid:
        return mk("call", "strcmp", a, b, width=32)
    return scale(mk("call", "strcmp", b, a, width=32), -1)


def m_strlen(e, st, args, fn, ins):
    n = st.ghost.get(("strlen", args[0]))
    if n is not None:
        return st, n
    if args[0].op == "str":
        return st, I(len(args[0].a[0]))
    return st, mk("call", "strlen", args[0], width="u")


def m_swap(n):
    def m(e, st, args, fn, ins):
        return st, bswap(args[0], n)
    return m


def m_frexp(e, st, args, fn, ins):
    e.store(st, args[1], mk("fexp", args[0], width=32), "i32")
    return st, mk("fmant", args[0])


def m_abs(e, st, args, fn, ins):
    c = icmp("slt", args[0], ZERO)
    v = st.ev(c)
    if v is not None:
        return st, scale(args[0], -1) if v else args[0]
    s2 = st.copy()
    out = []
    if st.assume(c, True):
        out.append((st, scale(args[0], -1)))
    if s2.assume(c, False):
        out.append((s2, args[0]))
    return out


# float and double variants denote the same mathematical function
CANON = {f + "f": f for f in ("fabs", "sqrt", "exp", "log", "log2", "log10", "sin", "cos", "tan", "asin", "acos",
                              "atan", "atan2", "pow", "fmod", "floor", "ceil", "round", "trunc", "frexp", "ldexp")}
LIBC = {"malloc": m_malloc, "calloc": m_calloc, "free": m_free, "realloc": m_realloc, "memcpy": m_memcpy,
        "memmove": m_memcpy, "memset": m_memset, "strdup": m_strdup, "abort": m_exit, "exit": m_exit,
        "asprintf": m_asprintf, "vasprintf": m_asprintf, "strcmp": m_strcmp, "strlen": m_strlen,
        "sprintf": m_sprintf, "snprintf": m_snprintf}
for f in ("strncmp", "strchr", "strrchr", "strtof", "strtod", "atoi", "atof", "isspace", "isdigit", "isalpha", "isalnum",
          "fabsf", "fabs", "sqrtf", "sqrt", "expf", "exp", "logf", "log", "log2f", "log10f", "log2", "log10",
          "sinf", "cosf", "tanf", "asinf", "acosf", "atan2f", "atanf", "sin", "cos", "tan", "asin", "acos", "atan",
          "atan2", "powf", "pow", "fmodf", "fmod", "floorf", "ceilf", "roundf", "floor", "ceil", "round", "abs",
          "truncf", "trunc", "frexpf", "ldexpf", "htons", "htonl", "ntohs", "ntohl", "strstr", "toupper", "tolower",
          "__ctype_b_loc", "__errno_location", "strerror", "memcmp"):
    LIBC[f] = pure(CANON.get(f, f))
LIBC.update({"htons": m_swap(2), "ntohs": m_swap(2), "htonl": m_swap(4), "ntohl": m_swap(4), "frexpf": m_frexp,
             "frexp": m_frexp, "abs": m_abs, "labs": m_abs})
for f in ("fprintf", "printf", "puts", "putchar", "fputs", "perror", "fflush", "fputc"):
    LIBC[f] = nop
