"""Hash-consed value terms used by the abstract interpreter.

Integers and pointers are kept as canonical linear combinations of atoms (so that
`a + 2 - 1`, `1 + a` and a re-associated helper all become the same term); everything
else is an uninterpreted operator over canonical operands (value numbering)."""

from math import gcd

_tab = {}
_uid = [0]


class T:
    __slots__ = ("op", "a", "uid", "width")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


def mk(op, *a, width=None):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.width = width
        _uid[0] += 1
        t.uid = _uid[0]
        _tab[k] = t
    elif width is not None and t.width is None:
        t.width = width
    return t


def I(n):
    return mk("i", int(n))


ZERO = I(0)
ONE = I(1)
UNDEF = mk("undef")


def isint(t):
    return t.op == "i"


def lin_parts(t):
    """(const, {atom: coef})"""
    if t.op == "i":
        return t.a[0], ()
    if t.op == "lin":
        return t.a[0], t.a[1]
    return 0, ((t, 1),)


def mk_lin(c, items):
    """items: dict atom->coef"""
    its = [(k, v) for k, v in items.items() if v != 0]
    if not its:
        return I(c)
    if c == 0 and len(its) == 1 and its[0][1] == 1:
        return its[0][0]
    its.sort(key=lambda kv: kv[0].uid)
    return mk("lin", c, tuple(its))


def nbytes(x):
    """number of bytes of an integer term (32 bits unless known to be narrower)"""
    return {8: 1, 16: 2}.get(x.width, 4)


def bytesof(x):
    """{position: byte term} of a term that is visibly a sum of shifted bytes, or None"""
    if x.op == "i":
        n = x.a[0] & 0xFFFFFFFFFFFFFFFF
        return {j: I((n >> (8 * j)) & 255) for j in range(8) if (n >> (8 * j)) & 255}
    if x.width == 8:
        return {0: x}
    if x.op == "lin":
        out = {}
        c, parts = x.a
        if c < 0:
            return None
        for j in range(8):
            if (c >> (8 * j)) & 255:
                out[j] = I((c >> (8 * j)) & 255)
        for a, k in parts:
            if k <= 0 or k & (k - 1) or (k.bit_length() - 1) % 8:
                return None
            if a.width not in (8, 16):
                return None
            for q in range(nbytes(a)):
                j = (k.bit_length() - 1) // 8 + q
                if j in out:
                    return None
                out[j] = a if a.width == 8 else mk("byte", a, q, width=8)
        return out
    return None


def byte(x, j):
    """j-th byte of x (two's complement)"""
    b = bytesof(x)
    if b is not None:
        return b.get(j, ZERO)
    if x.op == "shr":
        return byte(x.a[0], j + x.a[1])
    if x.op == "trunc":
        return byte(x.a[1], j) if j < x.a[0] // 8 else ZERO
    if j >= nbytes(x):
        return ZERO
    return mk("byte", x, j, width=8)


def frombytes(bs):
    """sum of bytes at positions"""
    r = ZERO
    for j, b in bs.items():
        r = add(r, scale(b, 1 << (8 * j)))
    return joinbytes(r)


def joinbytes(t):
    """replace the complete set of bytes of a term by the term"""
    if t.op != "lin":
        return t
    c, parts = t.a
    d = dict(parts)
    for a, k in parts:
        if a.op == "byte" and a.a[1] == 0 and a in d and k > 0:
            x = a.a[0]
            n = nbytes(x)
            bs = [mk("byte", x, q, width=8) for q in range(n)]
            if all(d.get(b) == k << (8 * q) for q, b in enumerate(bs)):
                for b in bs:
                    del d[b]
                r = add(mk_lin(c, d), scale(x, k))
                return joinbytes(r)
    return t


def bswap(x, n):
    return frombytes({n - 1 - j: byte(x, j) for j in range(n)})


def shr(x, k):
    b = bytesof(x) if k % 8 == 0 else None
    if b is not None:
        return frombytes({j - k // 8: v for j, v in b.items() if j >= k // 8})
    if k % 8 == 0:
        if x.op == "shr":
            return mk("shr", x.a[0], x.a[1] + k // 8)
        if k // 8 >= nbytes(x):
            return None if x.width not in (8, 16) else ZERO
        if k // 8 == nbytes(x) - 1 and x.width in (8, 16):
            return byte(x, k // 8)
        return mk("shr", x, k // 8)
    return None


def maskbytes(x, m):
    """x & m for a mask of whole bytes"""
    js = []
    for j in range(8):
        q = (m >> (8 * j)) & 255
        if q == 255:
            js.append(j)
        elif q:
            return None
    if m < 0 or not js:
        return None
    return frombytes({j: byte(x, j) for j in js})


def add(x, y, ky=1):
    if ky == 1 and y.op == "i" and y.a[0] == 0:
        return x
    cx, px = lin_parts(x)
    cy, py = lin_parts(y)
    d = dict(px)
    for a, k in py:
        d[a] = d.get(a, 0) + ky * k
    return mk_lin(cx + ky * cy, d)


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    c, p = lin_parts(x)
    return mk_lin(c * k, {a: v * k for a, v in p})


_addc = {}


def addc(x, c):
    if c == 0:
        return x
    k = (x.uid, c)
    r = _addc.get(k)
    if r is None:
        if len(_addc) > 2000000:
            _addc.clear()
        r = _addc[k] = add(x, I(c))
    return r


def split(t):
    """Const-free canonical-sign part L, sign s, const c with t == s*L + c"""
    c, p = lin_parts(t)
    if not p:
        return None, 1, c
    # leading coef by smallest uid
    lead = min(p, key=lambda kv: kv[0].uid)[1]
    s = 1 if lead > 0 else -1
    d = {a: v * s for a, v in p}
    return mk_lin(0, d), s, c


def atoms(t, acc=None):
    """all sub-terms that are atoms, transitively"""
    if acc is None:
        acc = set()
    if t in acc:
        return acc
    if t.op == "lin":
        for a, _ in t.a[1]:
            atoms(a, acc)
        return acc
    if t.op in ("i", "cf"):
        return acc
    acc.add(t)
    for x in t.a:
        if isinstance(x, T):
            atoms(x, acc)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    atoms(y, acc)
    return acc


def linatoms(t):
    return [a for a, _ in lin_parts(t)[1]]


TRUE = mk("b", 1)
FALSE = mk("b", 0)


def BOOL(v):
    return TRUE if v else FALSE


def NOT(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.a[0]
    return mk("not", b, width=1)


BOOLOPS = {"ult", "b", "not", "le", "eq", "flt", "fle", "feq", "bcond", "funo"}


def isbool(t):
    return t.op in BOOLOPS


def coefgcd(L):
    g = 0
    for _, v in lin_parts(L)[1]:
        g = gcd(g, v)
    return g


def mk_le0(d):
    """d <= 0"""
    L, s, c = split(d)
    if L is None:
        return BOOL(c <= 0)
    g = coefgcd(L)
    if g > 1:
        L = mk_lin(0, {a: v // g for a, v in lin_parts(L)[1]})
        c = -((-c) // g) if s > 0 else -((-c) // g)
    if s > 0:  # L + c <= 0
        return mk("le", L, -c, width=1)
    # -L + c <= 0  -> L >= c  -> not (L <= c-1)
    return NOT(mk("le", L, c - 1, width=1))


def mk_eq0(d):
    L, s, c = split(d)
    if L is None:
        return BOOL(c == 0)
    v = -c if s > 0 else c
    g = coefgcd(L)
    if g > 1:
        if v % g:
            return FALSE
        v //= g
        L = mk_lin(0, {a: k // g for a, k in lin_parts(L)[1]})
    if isbool(L):
        if v == 0:
            return NOT(L)
        if v == 1:
            return L
        return FALSE
    return mk("eq", L, v, width=1)


def icmp(pred, a, b):
    if isbool(a) and b.op == "i" or isbool(b) and a.op == "i":
        if isbool(b):
            a, b = b, a
            pred = {"sgt": "slt", "slt": "sgt", "sge": "sle", "sle": "sge", "ugt": "ult", "ult": "ugt",
                    "uge": "ule", "ule": "uge"}.get(pred, pred)
        v = b.a[0]
        if a in (TRUE, FALSE):
            a = I(a.a[0])
        else:
            p = pred.lstrip("su") if pred not in ("eq", "ne") else pred
            t0 = {"eq": 0 == v, "ne": 0 != v, "gt": 0 > v, "ge": 0 >= v, "lt": 0 < v, "le": 0 <= v}[p]
            t1 = {"eq": 1 == v, "ne": 1 != v, "gt": 1 > v, "ge": 1 >= v, "lt": 1 < v, "le": 1 <= v}[p]
            if t0 == t1:
                return BOOL(t0)
            return a if t1 else NOT(a)
    if a in (TRUE, FALSE):
        a = I(a.a[0])
    if b in (TRUE, FALSE):
        b = I(b.a[0])
    d = sub(a, b)
    if pred == "eq":
        return mk_eq0(d)
    if pred == "ne":
        return NOT(mk_eq0(d))
    p = pred[1:]
    if p == "le":
        return mk_le0(d)
    if p == "lt":
        return mk_le0(addc(d, 1))
    if p == "gt":
        return NOT(mk_le0(d))
    if p == "ge":
        return NOT(mk_le0(addc(d, 1)))
    raise ValueError(pred)


def fcmp(pred, a, b):
    p = pred
    if p == "true":
        return TRUE
    if p == "false":
        return FALSE
    if p in ("ogt", "oge", "ugt", "uge"):
        a, b = b, a
        p = {"ogt": "olt", "oge": "ole", "ugt": "ult", "uge": "ule"}[p]
    if p == "olt":
        return mk("flt", a, b, width=1)
    if p == "ole":
        return mk("fle", a, b, width=1)
    if p == "ult":  # not (b <= a)
        return NOT(mk("fle", b, a, width=1))
    if p == "ule":
        return NOT(mk("flt", b, a, width=1))
    x, y = (a, b) if a.uid <= b.uid else (b, a)
    if p == "oeq":
        return mk("feq", x, y, width=1)
    if p == "une":
        return NOT(mk("feq", x, y, width=1))
    if p == "uno":
        return mk("funo", x, y, width=1)
    if p == "ord":
        return NOT(mk("funo", x, y, width=1))
    if p == "one":
        return mk("bcond", "one", x, y, width=1)
    if p == "ueq":
        return NOT(mk("bcond", "one", x, y, width=1))
    raise ValueError(pred)


COMM = {"fadd", "fmul", "mul", "and", "or", "xor"}


def binop(op, a, b, width=None):
    if a in (TRUE, FALSE):
        a = I(a.a[0])
    if b in (TRUE, FALSE):
        b = I(b.a[0])
    if op == "add":
        return joinbytes(add(a, b))
    if op == "sub":
        return sub(a, b)
    if op == "mul":
        if a.op == "i":
            return scale(b, a.a[0])
        if b.op == "i":
            return scale(a, b.a[0])
    if op == "shl" and b.op == "i" and 0 <= b.a[0] < 32:
        return scale(a, 1 << b.a[0])
    if a.op == "i" and b.op == "i":
        x, y = a.a[0], b.a[0]
        try:
            if op == "and":
                return I(x & y)
            if op == "or":
                return I(x | y)
            if op == "xor":
                return I(x ^ y)
            if op in ("sdiv", "udiv") and y:
                q = abs(x) // abs(y)
                return I(q if (x < 0) == (y < 0) else -q)
            if op in ("srem", "urem") and y:
                r = abs(x) % abs(y)
                return I(r if x >= 0 else -r)
            if op in ("lshr", "ashr"):
                return I(x >> y)
        except Exception:
            pass
    if op == "xor" and isbool(a) and b.op == "i" and b.a[0] in (1, -1):
        return NOT(a)
    if op == "xor" and isbool(b) and a.op == "i" and a.a[0] in (1, -1):
        return NOT(b)
    if op == "and" and width == 1 and isbool(a) and isbool(b):
        pass
    if op == "and" and width != 1:
        for x, y in ((a, b), (b, a)):
            if y.op == "i" and y.a[0] > 0 and not isbool(x):
                r = maskbytes(x, y.a[0])
                if r is not None:
                    return r
    if op in ("or", "xor") and width != 1 and a.op != "b" and b.op != "b":
        x, y = bytesof(a), bytesof(b)
        if x is not None and y is not None and not set(x) & set(y):
            return joinbytes(add(a, b))
    if op in ("lshr", "ashr") and b.op == "i" and b.a[0] > 0:
        r = shr(a, b.a[0])
        if r is not None:
            return r
    if op in COMM and b.uid < a.uid:
        a, b = b, a
    return mk(op, a, b, width=width)


def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t)
    if depth > 12:
        return "..."
    o = t.op
    if o == "i":
        return str(t.a[0])
    if o == "lin":
        c, p = t.a
        s = "+".join((show(a, depth + 1) if k == 1 else "%d*%s" % (k, show(a, depth + 1))) for a, k in p)
        return "(%s%+d)" % (s, c) if c else "(%s)" % s
    if o == "ld":
        v = t.a[1]
        return "[%s]%s" % (show(t.a[0], depth + 1), "" if v is None else "'" + str(v))
    if o == "sym":
        return "$" + ".".join(str(x) for x in t.a)
    if o == "g":
        return "@" + t.a[0]
    if o == "fn":
        return "&" + t.a[0]
    if o == "byte":
        return "%s.b%d" % (show(t.a[0], depth + 1), t.a[1])
    if o == "str":
        return repr(t.a[0].decode("latin1"))
    if o == "le":
        return "%s<=%d" % (show(t.a[0], depth + 1), t.a[1])
    if o == "eq":
        return "%s==%d" % (show(t.a[0], depth + 1), t.a[1])
    if o == "b":
        return "true" if t.a[0] else "false"
    if o == "new":
        return "new<%s>" % (t.a[0],)
    return "%s(%s)" % (o, ",".join(show(x, depth + 1) for x in t.a))
