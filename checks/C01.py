"""Translation validation by abstract interpretation of the compiler: the lexer and parser are interpreted on an abstract file system with a corpus
of scripts that covers every production of the grammar, every pair of operators in both nestings, and the scoping rules; the assembly code they emit is
given a meaning (a trace of stores, table accesses, calls and conditions over opaque values) and compared with the meaning of the script's syntax tree, for every
outcome of the conditions.  Scripts with errors (every truncation of a script among them) must be refused with a message.  All memory accesses are obligations."""
import itertools
import re
from bzsa.terms import *
from bzsa.absint import State
from bzsa.fileenv import FConc
from bzsa import bzlang as L
from bzsa.bzlang import Bad

MINIMA = {"meaning": 400, "layout": 8, "position": 3000, "lexical": 30, "error": 60, "truncation": 60, "include": 8, "memory": 5000}


def where(C, fn="parse_script"):
    f = C.prog.func(fn) or C.prog.need("buzzparser_parse")
    return "%s:%s (%s)" % (f.file, f.line, f.name)


class Parse:
    """the outcome of bzzparse on a script: rc (None if the parser was not even created), out, diag"""

    def __init__(s, C, src, files={}, env={}, sym=None, fail=None, fname=b"p.bzz"):
        k = s.k = FConc(C)
        k.limit = 1200000 if C.tier == "quick" else 12000000
        k.tag = "compiling %r" % (src[:50].decode("latin1"))
        st = State()
        k.addfile(st, fname, src)
        for n, d in files.items():
            k.addfile(st, n, d)
        for n, v in env.items():
            st.ghost[("env", n)] = v
        k.fail_at = fail
        args = [b"bzzparse", fname, b"o.basm"] + ([b"st"] if sym is not None else [])
        if sym is not None:
            k.addfile(st, b"st", sym)
        argv = k.alloc(st, 8 * len(args))
        for i, a in enumerate(args):
            st.mem[addc(argv, 8 * i)] = (k.newstr(st, a), "ptr")
        st, par = k.call(st, "buzzparser_new", I(len(args)), argv)
        s.rc = None
        par = st.simp(par)
        if par is not ZERO:
            st, r = k.call(st, "buzzparser_parse", par)
            s.rc = k.num(st.simp(r), "the result of buzzparser_parse")
            p = k.local(st, "ptr", par)
            st, _ = k.call(st, "buzzparser_destroy", p)
        C.absorb(k.e)
        s.st = st
        s.out = k.output(st, b"o.basm") or b""
        s.diag = st.ghost.get("diag", 0)


def bits(n):
    for k in range(n + 1):
        for b in itertools.product((0, 1), repeat=k):
            if not b or b[-1]:
                yield b


def pretty(t):
    return str(t).replace("'", "")


def compare(C, rule, name, tree, asm, nbits):
    for b in bits(nbits):
        inst = "%s %s" % (name, "".join(map(str, b)))
        C.ob(rule, inst)
        R = L.Ref(b)
        want = R.run(tree)
        try:
            got = L.Mach(b).load(asm).run()
        except Bad as x:
            C.fail(rule, name, where(C), "the code of `%s` is not right: %s" % (name, x))
            return
        if got != want:
            for i, (g, w) in enumerate(itertools.zip_longest(got, want)):
                if g != w:
                    break
            C.fail(rule, name, where(C), "the code of `%s` does not do what the script says: effect %d is %s instead of %s (conditions: %s)" %
                   (name, i + 1, pretty(g), pretty(w), b))
            return


JOBS = []


def later(f):
    """the part of the analysis is collected, to be run in parallel"""
    def g(*a, **k):
        JOBS.append(lambda: f(*a, **k))
    return g


@later
def check(*a, **k):
    validate(*a, **k)


TOK = re.compile(rb"""(?P<ws>[ \t\r]+|#[^\n]*\n?)|\n|[A-Za-z][A-Za-z0-9_]*|[0-9][0-9.]*|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[=!<>]=|<<|>>|.""", re.S)


def positions(src):
    """the positions of the tokens of a script"""
    r = set()
    for m in TOK.finditer(src + b"\n"):
        if not m.group("ws"):
            r.add((src.count(b"\n", 0, m.start()) + 1, m.start() - (src.rfind(b"\n", 0, m.start()) + 1)))
    return r


def debuginfo(C, name, src, asm, fname):
    """the debug information of every instruction that has some is the position of a token of the script"""
    pos = positions(src)
    for i, q in enumerate(L.Mach(()).load(asm).dbg):
        if q:
            l, cl, fn = q.split(b",", 2)
            C.ob("position", "%s %d" % (name, i))
            if (int(l), int(cl)) not in pos or fn != b"/d/" + fname:
                C.fail("position", name, where(C, "chunk_addcode"), "the debug information of instruction %d of `%s` is %r, where no token of the script is" % (i, name, q))
                return


def validate(C, rule, tree, nbits=0, src=None, files={}, env={}, name=None, sym=None, fname=b"p.bzz"):
    t = src if src is not None else L.script(tree).encode("latin1")
    name = name or t.decode("latin1").strip().replace("\n", "; ")[:120]
    P = Parse(C, t, files, env, sym, fname=fname)
    if P.rc != 1:
        C.ob(rule, name)
        C.fail(rule, name, where(C), "the script `%s` is refused" % name)
        return None
    compare(C, rule, name, tree, P.out, nbits)
    if not files and not any(b"\n" in m.group() for m in TOK.finditer(t) if m.group()[:1] in b"'\"" and not m.group("ws")):
        try:
            debuginfo(C, name, t, P.out, fname)
        except Bad:
            pass
    return P


V = lambda n: ("v", n)
N = lambda t: ("n", t)
S = lambda t: ("s", '"%s"' % t, t)
B = lambda o, a, b: ("bin", o, a, b)
CALL = lambda f, *a: ("call", f if isinstance(f, tuple) else V(f), list(a))
DO = lambda f, *a: ("do", CALL(f, *a))
SET = lambda n, e: ("=", V(n) if isinstance(n, str) else n, e)
FN = lambda p, b: ("fn", p.split(), b)
FUN = lambda n, p, b: ("fun", n, p.split(), b)
RET = lambda e=None: ("ret", e)
VAR = lambda n, e=None: ("var", n, e)
IF = lambda c, a, b=None: ("if", c, a, b)
WHILE = lambda c, a: ("while", c, a)
FOR = lambda i, c, u, b: ("for", i, c, u, b)
DOT = lambda t, n: ("dot", t if isinstance(t, tuple) else V(t), n)
IDX = lambda t, e: ("idx", t if isinstance(t, tuple) else V(t), e)
TAB = lambda **k: ("t", [(n, e) for n, e in k.items()])
a, b, c, d, x, y, z, t, f, g = map(V, "abcdxyztfg")
AR = list(L.PREC)
CM = ["==", "!=", "<", "<=", ">", ">="]


def groups(l, n):
    for i in range(0, len(l), n):
        yield l[i:i + n]


def run(C):
    C.assume("files are abstract byte sequences; the C library behaves as documented; malloc succeeds; scripts come from the corpus")
    del JOBS[:]
    for f in (expressions, statements, scopes, layouts, lexical, includes, errors, truncations):
        f(C)
    C.parallel(JOBS)


def expressions(C):
    E = []
    for o in AR:
        for p in AR:
            E += [B(p, B(o, a, b), c), B(o, a, B(p, b, c))]
    E += [("neg", a), B("-", a, ("neg", b)), B("+", ("neg", a), b), B("*", ("neg", a), b), B("-", ("neg", a), ("neg", b)), ("neg", DOT("a", "b")), ("bnot", a), ("neg", B("^", a, b)), B("*", ("neg", B("^", a, b)), c),
          B("&", ("bnot", a), b), B("|", a, ("bnot", b)), B("+", ("bnot", a), N("1")), ("bnot", ("bnot", a)), ("neg", ("par", B("+", a, b))), N("-7"), N("-7.5"), N("+7"),
          B("-", a, N("3")), B("-", a, N("-3")), B("+", N("1"), N("2.5")), ("nil",), S("k"), TAB(), B("-", B("-", B("-", a, b), c), d), B("^", a, B("^", b, B("^", c, d))),
          B("+", CALL("f", a), CALL("g", b)), B("*", DOT("t", "x"), IDX("t", N("1"))), ("par", B("<", a, b)), B("+", ("par", B("and", a, b)), c)]
    for l in groups(E, 12):
        check(C, "meaning", [SET("x", e) for e in l])
    Q = []
    for o in CM:
        Q += [B(o, a, b), B(o, B("+", a, b), B("*", c, d)), B("and", B(o, a, b), c), B("or", a, B(o, b, c)), ("not", B(o, a, b))]
    for o in ("and", "or"):
        for p in ("and", "or"):
            Q += [B(p, B(o, a, b), c), B(o, a, ("par", B(p, b, c)))]
    Q += [("not", a), ("not", ("par", ("not", a))), B("and", ("par", ("not", a)), b), ("not", ("par", B("and", a, b))), B("==", a, ("nil",)), B("!=", CALL("f"), CALL("g")),
          B("==", ("par", B("<", a, b)), ("par", B(">", c, d)))]
    for l in groups(Q, 12):
        check(C, "meaning", [DO("p", e) for e in l])
    # the same conditions where conditions are allowed
    for l in groups(Q[:12], 6):
        check(C, "meaning", [FUN("r", "a", [IF(e, [RET(e)]) for e in l])] + [DO("r", V("q"))], 2)
    # tables
    T = [TAB(x=N("1")), TAB(x=N("1"), y=N("2")), TAB(x=TAB(y=TAB(z=a))), ("t", [(("k", "1"), a), (("k", "2.5"), b), ("n", c)]), TAB(x=B("+", a, N("1")), y=CALL("f", a)),
         TAB(x=("nil",), y=S("s")), TAB(m=FN("p", [RET(V("p"))]))]
    for l in groups(T, 4):
        check(C, "meaning", [SET("x", e) for e in l])
    # references, calls, call chains, methods
    R = [DOT("t", "a"), DOT(DOT("t", "a"), "b"), IDX("t", a), IDX(IDX("t", a), b), IDX("t", IDX("t", a)), DOT(IDX("t", S("a")), "b"), IDX(DOT("t", "a"), B("+", a, N("1"))),
         CALL("f"), CALL("f", a), CALL("f", a, b, c), CALL("f", CALL("g", a), CALL("g", b)), CALL(CALL("f", a), b), CALL(CALL(CALL("f"), a), b, c),
         CALL(DOT("t", "m"), a), CALL(DOT(DOT("t", "u"), "m"), a, b), CALL(IDX("t", a), b), CALL(IDX("t", CALL("f")), b), CALL(CALL(DOT("t", "m"), a), b),
         DOT(CALL("f", a), "x"), IDX(CALL("f", a), b), CALL(DOT(CALL("f", a), "m"), b), CALL(DOT(CALL(DOT("t", "m"), a), "n"), b), CALL(IDX(CALL(IDX("t", a), b), c), d),
         CALL("f", B("<", a, b), ("not", c), TAB(x=a), FN("", [])), CALL(IDX("t", B("+", a, CALL("g"))), CALL("h", IDX("t", b)))]
    for l in groups(R, 8):
        check(C, "meaning", [SET("x", e) for e in l])
    for l in groups([e for e in R if e[0] == "call"], 8):
        check(C, "meaning", [("do", e) for e in l])
    W = [e for e in R if e[0] in ("dot", "idx")]
    for l in groups(W, 8):
        check(C, "meaning", [SET(e, CALL("v", N(str(i)))) for i, e in enumerate(l)])
    # the same in a function, where t, a and f are locals or parameters
    for l in groups(R, 9):
        check(C, "meaning", [FUN("w", "t a f", [VAR("b", N("1"))] + [SET("x", e) for e in l] + [("do", e) for e in l if e[0] == "call"]), DO("w", V("T"), V("A"), V("F"))])
    for l in groups(W, 8):
        check(C, "meaning", [FUN("w", "t a f", [SET(e, CALL("v", a)) for e in l]), DO("w", V("T"), V("A"), V("F"))])


def statements(C):
    P = lambda n: DO("p", N(str(n)))
    one, blk = P(1), [P(1), P(2)]
    for bd in (one, blk, [], [P(3)]):
        for el in (None, P(8), [P(8), P(9)], []):
            check(C, "meaning", [P(0), IF(a, bd, el), P(5)], 1)
        check(C, "meaning", [P(0), WHILE(a, bd), P(5)], 3)
        check(C, "meaning", [P(0), FOR(SET("i", N("0")), B("<", V("i"), N("3")), SET("i", B("+", V("i"), N("1"))), bd), P(5)], 3)
    check(C, "meaning", [IF(a, P(1), IF(b, P(2), IF(c, P(3), P(4)))), P(5)], 3)
    check(C, "meaning", [IF(a, [P(1)], IF(b, [P(2)], IF(c, [P(3)]))), P(5)], 3)
    check(C, "meaning", [IF(a, [IF(b, [P(1)], [P(2)])], [IF(c, [P(3)], [P(4)])]), P(5)], 2)
    check(C, "meaning", [IF(a, IF(b, P(1), P(2))), P(5)], 2)
    check(C, "meaning", [WHILE(a, [WHILE(b, [P(1)]), IF(c, [P(2)]), P(3)]), P(5)], 5)
    check(C, "meaning", [FOR(SET("i", N("0")), a, DO("u"), [FOR(DO("w"), b, SET("j", a), P(1)), P(2)]), P(5)], 5)
    check(C, "meaning", [FOR(SET(DOT("t", "i"), N("0")), a, SET(IDX("t", b), c), WHILE(d, P(1)))], 4)
    check(C, "meaning", [FUN("k", "n", [IF(B(">", V("n"), N("0")), RET(B("*", V("n"), CALL("k", B("-", V("n"), N("1")))))), RET(N("1"))]), SET("x", CALL("k", N("3")))], 4)
    check(C, "meaning", [FUN("k", "n", [WHILE(a, [IF(b, [RET(V("n"))]), P(1)]), RET()]), SET("x", CALL("k", N("3"))), SET("y", CALL("k", N("4")))], 4)
    check(C, "meaning", [FUN("k", "n", [FOR(SET("n", N("0")), a, SET("n", N("1")), [IF(b, RET(V("n")), [RET()])])]), SET("x", CALL("k", N("3")))], 4)
    check(C, "meaning", [FUN("k", "", []), SET("x", CALL("k")), FUN("h", "", [RET()]), SET("x", CALL("h")), FUN("m", "", [RET(("nil",))]), SET("x", CALL("m"))])
    check(C, "meaning", [FUN("k", "", [RET(), P(1)]), SET("x", CALL("k"))], src=b"function k() {\n return\n p(1)\n}\nx = k()\n")
    check(C, "meaning", [FUN("k", "", [RET(), P(1)]), SET("x", CALL("k"))], src=b"function k() { return; p(1) }\nx = k()\n")
    check(C, "meaning", [FUN("k", "", [RET(B("<", a, b))]), SET("x", CALL("k")), FUN("h", "", [RET(FN("p", [RET(B("+", V("p"), N("1")))]))]), SET("y", CALL(CALL("h"), N("4")))])
    check(C, "meaning", [FUN("k", "", [RET(TAB(a=N("1")))]), SET("x", CALL("k"))])
    # functions are known before they are defined, the last of two definitions holds
    check(C, "meaning", [SET("x", CALL("k", N("1"))), FUN("k", "p", [RET(CALL("h", V("p")))]), FUN("h", "p", [RET(B("+", V("p"), V("p")))])])
    check(C, "meaning", [SET("x", V("k")), FUN("k", "", [RET(N("1"))]), SET("y", CALL("k")), FUN("k", "", [RET(N("2"))]), SET("z", CALL("k"))])
    # a doc string is no statement
    check(C, "meaning", [FUN("k", "p", [RET(V("p"))]), SET("x", CALL("k", N("2")))], src=b"function k(p) \"adds nothing\" { return p }\nx = k(2)\n")
    check(C, "meaning", [])
    check(C, "meaning", [], src=b"", name="empty script")
    check(C, "meaning", [], src=b"\n\n# nothing\n", name="script of comments")
    # many of everything: buffers grow, labels and strings stay apart
    n = 40
    check(C, "meaning", [SET("v%d" % i, S("s%d" % (n - i))) for i in range(n)] + [IF(V("v%d" % i), DO("p", V("v%d" % (i + 1)))) for i in range(25)], 2, name="many variables and labels")
    check(C, "meaning", [FUN("f%d" % i, "a", [RET(CALL("f%d" % (i + 1), B("+", a, N(str(i)))))]) for i in range(14)] + [SET("x", CALL("f0", N("1")))], name="many functions")
    if C.tier != "quick":
        check(C, "meaning", [SET("x", S("s%d" % ((7 * i) % 271))) for i in range(271)], name="more than 256 strings")
    # strings known in advance keep their place
    symtable(C)


@later
def symtable(C):
    P = validate(C, "meaning", [SET("b", S("c")), SET("x", S("a"))], sym=b"a\nb\nc\n", name="symbol table file")
    if P:
        C.ob("meaning", "symbol table order")
        if L.Mach(()).load(P.out).strs[:3] != ["a", "b", "c"]:
            C.fail("meaning", "symbol table order", where(C, "buzzparser_new"), "the strings of the symbol table file do not come first")


def scopes(C):
    P = lambda e: DO("p", e)
    A, Bv = V("A"), V("B")
    cases = [
        # locals and globals
        ([FUN("k", "a", [VAR("x", N("1")), SET("x", B("+", x, a)), SET("y", x), RET(x)]), SET("x", N("5")), SET("z", CALL("k", x)), P(x)], 0),
        ([FUN("k", "a b", [SET("a", b), SET("b", N("3")), RET(B("-", a, b))]), SET("a", N("7")), P(CALL("k", N("1"), N("2"))), P(a)], 0),
        ([FUN("k", "", [P(x), VAR("x"), P(x), SET("x", N("2")), P(x)]), SET("x", N("1")), DO("k"), P(x)], 0),
        ([FUN("k", "", [VAR("x", CALL("g", x)), P(x)]), DO("k")], 0),
        ([FUN("k", "a", [VAR("x", a), VAR("y", B("+", x, N("1"))), VAR("z", TAB(x=x, y=y)), RET(z)]), P(DOT(CALL("k", N("1")), "y"))], 0) if 0 else
        ([FUN("k", "a", [VAR("x", a), VAR("y", B("+", x, N("1"))), VAR("z", TAB(x=x, y=y)), RET(DOT("z", "y"))]), P(CALL("k", N("1")))], 0),
        # blocks
        ([FUN("k", "a", [VAR("x", N("1")), IF(a, [VAR("y", N("2")), VAR("z", N("3")), P(B("+", y, z))], [VAR("w", N("4")), P(V("w"))]), VAR("v", N("5")), P(V("v")), P(x), P(y)]), DO("k", N("1"))], 1),
        ([FUN("k", "a", [WHILE(a, [VAR("y", CALL("g")), IF(y, [VAR("z", y), P(z)]), P(y)]), VAR("w", N("1")), P(V("w"))]), DO("k", N("1"))], 5),
        ([FUN("k", "a", [FOR(SET("a", N("0")), a, SET("a", N("1")), [VAR("y", a), P(y)]), VAR("w", N("1")), P(V("w")), P(a)]), DO("k", N("1"))], 3),
        ([FUN("k", "a", [IF(a, [VAR("y", N("1")), RET(y)]), VAR("y", N("2")), RET(y)]), P(CALL("k", N("1")))], 1),
        ([FUN("k", "a", [IF(a, [IF(b, [VAR("y", N("1")), P(y)]), VAR("z", N("2")), P(z)], [VAR("z", N("3")), P(z)]), VAR("y", N("4")), P(y)]), DO("k", N("1"))], 2),
        ([IF(a, [VAR("x", N("1")), P(x)]), P(x), VAR("x", N("2")), P(x)], 1),
        ([WHILE(a, [VAR("x", CALL("g")), P(x), IF(x, [VAR("y", x), P(y)])]), P(x)], 4),
        ([IF(a, [SET("h", FN("q", [VAR("w", V("q")), RET(V("w"))])), P(CALL("h", N("1")))]), VAR("w", N("2")), P(V("w"))], 1),
        ([FUN("k", "a", [IF(a, [VAR("y", N("1")), P(y)]), SET("G", FN("q", [RET(V("q"))])), P(CALL("G", N("5")))]), DO("k", N("1"))], 1),
        ([FUN("k", "a", [WHILE(a, [VAR("y", N("1")), P(y)]), SET("G", FN("q", [RET(V("q"))])), P(CALL("G", N("5")))]), DO("k", N("1"))], 2),
        ([FUN("k", "a", [FOR(SET("a", N("0")), a, SET("a", N("1")), [VAR("y", N("1")), VAR("z", y), P(z)]), SET("G", FN("q", [RET(V("q"))])), P(CALL("G", N("5")))]), DO("k", N("1"))], 2),
        ([FUN("k", "a", [IF(a, [P(N("1"))], [VAR("y", N("1")), P(y)]), SET("G", FN("q", [RET(B("+", a, V("q")))])), P(CALL("G", N("5")))]), DO("k", N("1"))], 1),
        ([FUN("k", "a", [IF(a, [VAR("y", N("1")), IF(y, [VAR("w", y), P(V("w"))]), SET("G", FN("q", [RET(B("+", y, V("q")))])), P(CALL("G", N("5")))])]), DO("k", N("1"))], 2),
        # lambdas: captured by value, parameters and self
        ([FUN("k", "a", [VAR("x", N("1")), VAR("h", FN("b", [SET("x", B("+", x, b)), RET(B("*", x, a))])), P(CALL("h", N("2"))), P(CALL("h", N("3"))), SET("x", N("9")), P(CALL("h", N("4"))), P(x)]), DO("k", V("A"))], 0),
        ([FUN("k", "a", [RET(FN("b", [RET(FN("c", [RET(B("-", B("+", a, b), c))]))]))]), P(CALL(CALL(CALL("k", N("1")), N("2")), N("3")))], 0),
        ([FUN("k", "a b", [VAR("h", FN("b", [VAR("c", b), RET(B("-", a, c))])), P(CALL("h", N("7"))), P(b)]), DO("k", N("1"), N("2"))], 0),
        ([FUN("k", "a", [VAR("h", FN("a", [RET(FN("a", [RET(a)]))])), P(CALL(CALL("h", N("7")), N("8"))), P(a)]), DO("k", N("1"))], 0),
        ([FUN("k", "a", [IF(a, [VAR("x", N("1")), SET("h", FN("b", [VAR("c", x), RET(B("+", b, V("c")))]))]), VAR("z", N("3")), P(CALL("h", N("2"))), P(z)]), SET("h", FN("q", [RET(N("0"))])), DO("k", N("1"))], 1),
        ([SET("h", FN("a b", [VAR("c", B("-", a, b)), RET(V("c"))])), P(CALL("h", N("1"), N("2"))), SET("m", FN("", [RET(CALL("h", N("3"), N("4")))])), P(CALL("m"))], 0),
        ([SET("h", FN("a", [IF(a, [VAR("q", N("1")), RET(V("q"))], [RET(FN("r", [RET(B("+", a, V("r")))]))])])), SET("y", CALL("h", N("1")))], 1),
        ([FUN("k", "", [VAR("h", FN("n", [RET(CALL("g", V("n")))])), RET(CALL("h", N("5")))]), P(CALL("k"))], 0),
        # self
        ([SET("t", TAB(v=N("1"), m=FN("a", [SET(DOT("self", "v"), a), RET(DOT("self", "v"))]))), P(CALL(DOT("t", "m"), N("5"))), P(DOT("t", "v"))], 0),
        ([FUN("m", "a", [RET(DOT("self", "v"))]), SET("t", TAB(v=N("1"))), SET(DOT("t", "m"), V("m")), P(CALL(DOT("t", "m"), N("5"))), SET(IDX("t", N("2")), V("m")), P(CALL(IDX("t", N("2")), N("5")))], 0),
        ([SET("t", TAB(v=N("1"), m=FN("a", [VAR("h", FN("b", [RET(B("+", DOT("self", "v"), b))])), RET(CALL("h", a))]))), P(CALL(DOT("t", "m"), N("5")))], 0),
        ([SET("t", TAB(u=TAB(v=N("1"), m=FN("a", [RET(V("self"))])))), P(CALL(DOT(DOT("t", "u"), "m"), N("5")))], 0),
        ([SET("self", N("3")), SET("t", TAB(v=N("1"), m=FN("a", [RET(DOT("self", "v"))]))), P(CALL(DOT("t", "m"), N("5")))], 0),
        ([SET("self", N("3")), FUN("m", "a", [RET(DOT("self", "v"))]), SET("t", TAB(v=N("1"))), SET(DOT("t", "m"), V("m")), P(CALL(DOT("t", "m"), N("5")))], 0),
        ([FUN("k", "", [RET(V("self"))]), P(CALL("k")), SET("h", FN("", [RET(V("self"))])), P(CALL("h"))], 0),
        # a name used as global, parameter, local, field and string
        ([FUN("k", "k", [VAR("x", TAB(k=V("k"))), RET(B("+", DOT("x", "k"), IDX("x", S("k"))))]), P(CALL("k", N("1"))), SET("q", S("k"))], 0),
        ([VAR("k", N("1")), FUN("j", "", [VAR("k", N("2")), RET(V("k"))]), P(CALL("j")), P(V("k"))], 0),
    ]
    for tree, n in cases:
        check(C, "meaning", tree, n)


def layouts(C):
    tree = [VAR("x", N("1")), FUN("k", "a b", [IF(B("<", a, b), [RET(a)], [VAR("y", B("+", a, N("1"))), RET(y)])]), WHILE(x, [SET("x", CALL("k", x, N("2")))]), SET("t", TAB(a=N("1"), b=S("q"))), DO(DOT("u", "m"), S("z"))]
    for src in (
        b"var x = 1\nfunction k(a, b) { if(a < b) { return a } else { var y = a + 1; return y } }\nwhile(x) { x = k(x, 2) }\nt = {.a = 1, .b = \"q\"}\nu.m(\"z\")\n",
        b"var x=1;function k(a,b){if(a<b){return a}else{var y=a+1;return y}};while(x){x=k(x,2)};t={.a=1,.b='q'};u.m('z')",
        b"\n\n;;\nvar x = 1 ;\n\n;function k ( a , b )\n{\n  if ( a < b )\n  {\n    return a;\n  }\n  else\n  {\n    var y = a + 1\n    return y\n  }\n}\nwhile ( x )\n{\n x = k ( x , 2 )\n}\nt = {\n .a = 1,\n .b = \"q\"\n}\nu . m ( \"z\" )\n\n;\n",
        b"\tvar\tx\t=\t1\r\nfunction k(a,\r\n b) {\r\n if(a < b)\r\n {\r\n return a\r\n }\r\n else {\r\n var y = a + 1\r\n return y\r\n }\r\n}\r\nwhile(x) {\r\n x = k(x,\r\n 2)\r\n}\r\nt = {.a = 1,\r\n .b = \"q\"}\r\nu.m(\"z\")\r\n",
        b"# first\nvar x = 1 # one\n# function k(a) { }\nfunction k(a, b) { # two\n if(a < b) # three\n { return a # a\n } # else\n else { # y\n var y = a + 1 # ; return 7\n return y }\n} # '\nwhile(x) { x = k(x, 2) # \"\n}\nt = { # t\n.a = 1, # b\n.b = \"q\" }\nu.m(\"z\") # end",
        b"var x = 1\nfunction k(a, b) { if(a < b) return a\n else { var y = a + 1; return y } }\nwhile(x)\n x = k(x, 2)\nt = {.a = 1, .b = \"q\"}\nu.m(\n\"z\"\n)",
        b"var x =\n1\nfunction\nk(a, b) { if(a\n<\nb) { return a } else { var\ny = a +\n1; return y } } while(x) { x =\nk(x, 2) } t = {.a = 1, .b = \"q\"} u.m(\"z\")",
        b"(",
    )[:-1]:
        check(C, "layout", tree, 3, src=src, name=src[:40].decode().replace("\n", " "))
    for n in range(1, 22):
        check(C, "layout", tree[:1] + tree[3:4], fname=b"q" * n, name="file name of %d characters" % n)


def lexical(C):
    for q in '"\'':
        for src, val in (("abc", "abc"), ("", ""), ("a b\tc", "a b\tc"), (r"a\nb", "a\nb"), (r"a\tb", "a\tb"), (r"a\\b", "a\\b"), (r"\\", "\\"), (r"\\\\", "\\\\"), (r"\%s" % q, q), (r"a\%sb" % q, "a%sb" % q),
                         (r"\\\%s" % q, "\\" + q), (r"\n\n\t", "\n\n\t"), (r"\qx", "qx"), ("#no comment", "#no comment"), ("'" if q == '"' else '"', "'" if q == '"' else '"'), ("; } )", "; } )"),
                         ("if", "if"), (r"\\n", "\\n"), ("x" * 70, "x" * 70), ("@a |1,2", "@a |1,2"), ("!3", "!3")):
            if q == "'" and len(src) > 20:
                continue
            e = ("s", q + src + q, val)
            check(C, "lexical", [SET("x", e), DO("p", e, N("1")), SET("y", ("s", '"after"', "after"))], name="string %s%s%s" % (q, src, q))
    check(C, "lexical", [SET("x", ("s", "", "a\nb"))], src=b"x = \"a\nb\"\n", name="string over two lines")
    for n in ("0", "1", "12", "007", "2147483647", "0.5", "12.25", "3.", "100000.125"):
        check(C, "lexical", [SET("x", N(n)), DO("p", B("-", N(n), N(n)))], name="number " + n)
    for n in ("a", "A", "aB_9", "x1", "variable", "iff", "elsewhere", "functional", "returned", "forall", "whiles", "android", "orb", "nothing", "nilly", "include_me", "includes", "include2", "var_", "selfish", "z" * 60):
        check(C, "lexical", [SET(n, N("1")), DO("p", V(n)), SET(DOT("t", n), V(n)), FUN("k", n, [RET(V(n))]), SET("x", CALL("k", N("2")))], name="identifier " + n)


def includes(C):
    q = [SET("a", N("1")), SET("b", N("2")), FUN("k", "p", [RET(V("p"))]), SET("c", CALL("k", N("3")))]
    inc = b"b = 2\nfunction k(p) { return p }\n"
    check(C, "include", q, src=b"a = 1\ninclude \"i.bzz\"\nc = k(3)\n", files={b"i.bzz": inc}, name="include")
    check(C, "include", q, src=b"a = 1\ninclude 'i.bzz'\nc = k(3)\n", files={b"i.bzz": inc[:-1]}, name="include of a file without final newline")
    check(C, "include", q, src=b"a = 1\n  include   \"i.bzz\"  # comment\nc = k(3)\n", files={b"i.bzz": b"# x\n" + inc + b"# y"}, name="include of a file that ends in a comment")
    check(C, "include", q, src=b"a = 1\ninclude \"j.bzz\"\n", files={b"i.bzz": inc, b"j.bzz": b"include \"i.bzz\"\nc = k(3)\n"}, name="nested include")
    check(C, "include", q, src=b"a = 1\ninclude \"i.bzz\"\nc = k(3)\n", files={b"i.bzz": b"include \"i.bzz\"\n" + inc + b"include \"p.bzz\"\n"}, name="recursive include")
    check(C, "include", q, src=b"a = 1\ninclude \"e.bzz\"\ninclude \"i.bzz\"\nc = k(3)\n", files={b"i.bzz": inc, b"e.bzz": b""}, name="include of an empty file")
    for path in (b"/x", b"/x/", b"/y:/x", b":/x", b"/y/::/x/:/z"):
        check(C, "include", q, src=b"a = 1\ninclude \"i.bzz\"\nc = k(3)\n", files={b"/x/i.bzz": inc, b"/z/i.bzz": b"b = 5\n"}, env={b"BUZZ_INCLUDE_PATH": path}, name="include path " + path.decode())
    check(C, "include", q, src=b"a = 1\ninclude \"i.bzz\"\nc = k(3)\n", files={b"i.bzz": inc, b"/x/i.bzz": b"b = 5\n"}, env={b"BUZZ_INCLUDE_PATH": b"/x"}, name="include of a local file first")
    for name, src, files, env in (("missing file", b"a = 1\ninclude \"i.bzz\"\nb = 1\n", {}, {}), ("missing file with a path", b"a = 1\ninclude \"i.bzz\"\nb = 1\n", {}, {b"BUZZ_INCLUDE_PATH": b"/x:/y"}),
                                  ("without file name", b"a = 1\ninclude\nb = 1\n", {}, {}), ("open file name", b"a = 1\ninclude \"i.bzz\nb = 1\n", {b"i.bzz": b""}, {}),
                                  ("error in the file", b"a = 1\ninclude \"i.bzz\"\nb = 1\n", {b"i.bzz": b"c = \n}"}, {}), ("missing file in a function", b"function k() {\ninclude \"i.bzz\"\n}\n", {}, {}),
                                  ("long directory", b"include \"i.bzz\"\n", {}, {b"BUZZ_INCLUDE_PATH": b"/" + b"d" * 4090}), ("missing file at the end", b"a = 1\ninclude \"i.bzz\"", {}, {}),
                                  ("missing file first", b"include \"i.bzz\"", {}, {}), ("in a table", b"t = {.a = 1, include \"i.bzz\" }", {}, {})):
        refuse(C, "include", name, src, files, env)


@later
def refuse(C, rule, name, src, files={}, env={}):
    P = Parse(C, src, files, env)
    C.ob(rule, name)
    if P.rc == 1:
        C.fail(rule, name, where(C), "the script %r is accepted (%s)" % (src.decode("latin1"), name))
    elif P.diag == 0:
        C.fail(rule, name, where(C), "the script %r is refused without a message (%s)" % (src.decode("latin1"), name))


ERR = """x
x =
x = )
x = 1 +
x = (1
x = a b
= 1
1 = x
f(
f(1
f(1,
f(1,)
f(,1)
f(1 2)
f() = 1
t.
t. = 1
t.f() = 1
t.1 = 2
t[
t[1
t[1 = 2
t[] = 1
t.x
t[1]
var
var 1
var x =
var x = = 1
if
if(
if(a
if(a)
if a { }
if(a) {
if() { }
if(a) { } else
if(a) { } else {
else { }
while
while(a
while(a) {
while() { }
for
for(
for(i = 0
for(i = 0, i < 1
for(i = 0, i < 1, i = 1
for(i = 0, i < 1, i = 1) {
for(i = 0; i < 1; i = 1) { }
for(i, i, i) { }
function
function f
function f(
function f(a
function f(a,
function f(a,) { }
function f(1) { }
function f(a b) { }
function f()
function f() {
function f() { return
function f() { return 1
function f() { return ) }
function f() { function g() { } }
if(a) { function g() { } }
function f() { var x = 1; var x = 2 }
function f(a) { var a = 1 }
function f() { var x = 1; if(a) { var x = 2 } }
x = {
x = {.a
x = {.a =
x = {.a = 1
x = {.a = 1,
x = {.a = 1,}
x = {.a 1}
x = {a = 1}
x = {1}
x = {."a" = 1}
x = {.a = 1 .b = 2}
x = function
x = function(
x = function(a
x = function(a)
x = function(a) {
x = function(a,) { }
}
x = 1 }
function f() { } }
x = 1 } y = 2
x = "abc
x = 'abc"
x = "abc\\"
x = 1 $ 2
x = @
x = 1 ~
$
x = a == b
x = a and b
x = a < b < c
f(a < b < c)
if(a == b == c) { }
x = not a
x = ^ 2
x = * 2
x = 2 *
x = a !
x = !
x = -
x = a[1
x = a.b.
x = if
var if = 1
if = 1
x.if = 1
nil = 1
return = 1
(x) = 1
{ x = 1 }
x == 1
x += 1
x, y = 1, 2
x(1)(2) = 3""".split("\n")


def errors(C):
    for t in ERR:
        refuse(C, "error", t, t.encode())
        refuse(C, "error", t + " (in a program)", b"y = 1\nfunction u() { return 2 }\n" + t.encode() + b"\n")
    for op, n in (("fread", 1), ("fopen", 1), ("fopen", 2), ("fflush", 1), ("fprintf", 1), ("fprintf", 5)):
        failing(C, op, n, b"x = 1\ny = \"s\"\n", {})
    for n in (1, 2):
        failing(C, "fread", n, b"x = 1\ninclude \"i.bzz\"\n", {b"i.bzz": b"y = 1\n"})


@later
def failing(C, op, n, src, files):
    P = Parse(C, src, files, fail=(op, n))
    inst = "failing %s %d%s" % (op, n, " with an include" if files else "")
    C.ob("error", inst)
    if P.rc == 1:
        C.fail("error", inst, where(C, "buzzparser_parse"), "success is reported although %s() failed" % op)


TR = b"""var x = 'a\\n' # c
function k(a, b) { if(a < b) { return a } else { var y = a + 1.5; return y } }
while(not x and 1) { x = k(x, -2) }
for(i = 0, i < 3, i = i + 1) { t[i].f(i)(x) }
t = {.a = 1, .2 = function(q) { return !q }}
"""


def truncations(C):
    """whatever a script is cut to, it is either refused with a message or compiled to code that is sound"""
    step = 3 if C.tier == "quick" else 1
    for n in range(0, len(TR), step):
        truncation(C, n)


@later
def truncation(C, n):
    src = TR[:n]
    P = Parse(C, src)
    inst = "first %d characters" % n
    C.ob("truncation", inst)
    if P.rc == 1:
        try:
            L.Mach(()).load(P.out).run()
        except Bad as x:
            if not str(x).startswith(("an element", "('")):
                C.fail("truncation", inst, where(C), "the script %r compiles to unsound code: %s" % (src.decode(), x))
    elif not P.diag:
        C.fail("truncation", inst, where(C), "the script %r is refused without a message" % src.decode())
