"""Reference semantics of the Buzz language for translation validation.

A script is an abstract syntax tree, built from tuples; `text` prints it in Buzz syntax, `Ref` gives its meaning as a trace of
observable effects, `Mach` gives the meaning of assembly code as the same kind of trace.  Values computed from unknown ones
are terms; conditions are decided by a vector of bits that both sides follow."""
import re

NIL = ("nil",)
PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "%": 3, "^": 4, "<<": 5, ">>": 5, "&": 6, "|": 6}
OPS = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "^": "pow", "<<": "lshift", ">>": "rshift", "&": "band", "|": "bor",
       "==": "eq", "!=": "neq", "<": "lt", "<=": "lte", ">": "gt", ">=": "gte", "and": "land", "or": "lor"}
BIN = set(OPS.values())
UN = {"unm", "lnot", "bnot"}


class Bad(Exception):
    pass


# ---- printing: the least parentheses that the grammar asks for ------------------------------------------------
# contexts: 0 condition, 1 comparison operand (expression), 2.. operand of a binary operator
def text(e, lv=0):
    k = e[0]
    if k == "n":
        return e[1]
    if k == "s":
        return e[1]
    if k == "nil":
        return "nil"
    if k == "v":
        return e[1]
    if k == "bin":
        o, a, b = e[1:]
        if o in ("and", "or"):
            t, p = "%s %s %s" % (text(a, 0) if a[0] == "bin" and a[1] in ("and", "or") else text(a, 0.5), o, text(b, 0.5)), 0
        elif o not in PREC:
            t, p = "%s %s %s" % (text(a, 1), o, text(b, 1)), 0.5
        else:
            q = PREC[o]
            t, p = "%s %s %s" % (text(a, q + (o == "^")), o, text(b, q + (o != "^"))), q
        return "(%s)" % t if p < lv else t
    if k == "not":
        t = "not %s" % text(e[1], 0.5)
        return "(%s)" % t if lv > 0 else t
    if k == "neg":
        # binds as tightly as an operand; what follows is a power
        return ("(-%s)" if lv > 4 else "-%s") % text(e[1], PREC["^"] if e[1][0] == "bin" else 7)
    if k == "bnot":
        return "!%s" % text(e[1], 7)
    if k == "t":
        t = "{%s}" % ", ".join(".%s = %s" % (n if isinstance(n, str) else n[1], text(x, 1)) for n, x in e[1])
        return t if lv <= 1 else "(%s)" % t
    if k == "dot":
        return "%s.%s" % (text(e[1], 9), e[2])
    if k == "idx":
        return "%s[%s]" % (text(e[1], 9), text(e[2], 1))
    if k == "call":
        return "%s(%s)" % (text(e[1], 9), ", ".join(text(a, 0) for a in e[2]))
    if k == "fn":
        return "function(%s) %s" % (", ".join(e[1]), block(e[2]))
    if k == "par":
        return "(%s)" % text(e[1], 0)
    raise Bad(k)


def block(b):
    return "{ %s }" % "; ".join(stat(x) for x in b) if b else "{}"


def body(b):
    """a body is a block (list) or a single statement"""
    return block(b) if isinstance(b, list) else stat(b)


def stat(x):
    k = x[0]
    if k == "var":
        return "var " + x[1] + (" = " + text(x[2], 1) if x[2] else "")
    if k == "=":
        return "%s = %s" % (text(x[1], 9), text(x[2], 1))
    if k == "do":
        return text(x[1], 9)
    if k == "if":
        return "if(%s) %s" % (text(x[1]), body(x[2])) + (" else " + body(x[3]) if x[3] is not None else "")
    if k == "while":
        return "while(%s) %s" % (text(x[1]), body(x[2]))
    if k == "for":
        return "for(%s, %s, %s) %s" % (stat(x[1]), text(x[2]), stat(x[3]), body(x[4]))
    if k == "ret":
        return "return" + (" " + text(x[1]) if x[1] else "")
    if k == "fun":
        return "function %s(%s) %s" % (x[1], ", ".join(x[2]), block(x[3]))
    raise Bad(k)


def script(b):
    return "".join(stat(x) + "\n" for x in b)


# ---- the world that both sides act upon --------------------------------------------------------------------------
class World:
    def __init__(s, bits, fuel=4000):
        s.bits, s.nb, s.trace, s.g, s.heap, s.n, s.epoch, s.fuel = bits, 0, [], {}, {}, 0, 0, fuel

    def fresh(s, k):
        s.n += 1
        return (k, s.n)

    def tick(s):
        s.fuel -= 1
        if s.fuel < 0:
            raise Bad("it does not end")

    def decide(s, v):
        b = s.bits[s.nb] if s.nb < len(s.bits) else 0
        s.nb += 1
        s.trace.append(("condition", v, b))
        return b

    def gload(s, n):
        return s.g.get(n, ("global", n, s.epoch))

    def gstore(s, n, v):
        s.trace.append(("store", n, v))
        s.g[n] = v

    def table(s):
        t = s.fresh("table")
        s.heap[t] = {}
        return t

    def tget(s, t, k):
        if k[0] in "nf":
            k = ("n", float(k[1]))
        if t in s.heap:
            h = s.heap[t]
            if k in h:
                return h[k]
            return NIL if "?" not in h else ("element", t, k, s.epoch)
        if t[0] in ("n", "s", "nil", "closure"):
            raise Bad("an element of %s is read" % (t,))
        return ("element", t, k, s.epoch)

    def tput(s, t, k, v):
        if k[0] in "nf":
            k = ("n", float(k[1]))
        if t[0] in ("n", "s", "nil", "closure"):
            raise Bad("an element of %s is written" % (t,))
        if v[0] == "closure":
            v = s.bind(v, t)
        s.trace.append(("put", t, k, v))
        s.epoch += t not in s.heap
        s.heap.setdefault(t, {"?": 1})[k] = v

    def opaque(s, f, args):
        s.trace.append(("call", f, args))
        s.epoch += 1
        s.g = {k: v for k, v in s.g.items() if v[0] == "closure"}
        for t in s.heap:
            s.heap[t] = dict({k: v for k, v in s.heap[t].items() if k != "?" and v[0] == "closure"}, **{"?": 1})
        return ("result", s.epoch)


# ---- the meaning of a tree ---------------------------------------------------------------------------------------
class Ret(Exception):
    pass


class Ref(World):
    """Values: ('n',x) numbers, ('i'...)"""

    def run(s, b):
        s.clo = {}
        s.funs = [x for x in b if x[0] == "fun"]
        for x in s.funs:
            s.gstore(x[1], s.closure(x[2], x[3], [{}], NIL))
        s.stats(b, None)
        s.trace.append(("end",))
        return s.trace

    def closure(s, params, b, scopes, self):
        c = s.fresh("closure")
        env = {}
        for sc in scopes:
            env.update(sc)
        s.clo[c] = (params, b, env, self)
        return c

    def bind(s, c, t):
        n = s.fresh("closure")
        p, b, env, self = s.clo[c]
        s.clo[n] = (p, b, env, t)
        return n

    def call(s, f, args):
        s.tick()
        if f not in s.clo:
            if f[0] in ("n", "s", "nil", "table"):
                raise Bad("%s is called" % (f,))
            return s.opaque(f, tuple(args))
        p, b, env, self = s.clo[f]
        fr = dict(env)
        fr["self"] = self
        fr.update(zip(p, args))
        try:
            s.stats(b, [fr, {}])
        except Ret as r:
            return r.args[0]
        return NIL

    # scopes: None outside functions, else a list of dictionaries
    def stats(s, b, sc):
        for x in b:
            s.stat(x, sc)

    def body(s, b, sc):
        if not isinstance(b, list):
            return s.stat(b, sc)
        s.stats(b, None if sc is None else sc + [{}])

    def stat(s, x, sc):
        s.tick()
        k = x[0]
        if k == "var":
            if sc is None:
                s.gstore(x[1], s.ev(x[2], sc) if x[2] else NIL)
            else:
                sc[-1][x[1]] = NIL
                sc[-1][x[1]] = s.ev(x[2], sc) if x[2] else NIL
        elif k == "=":
            l = x[1]
            if l[0] == "v":
                v = s.ev(x[2], sc)
                for d in reversed(sc or []):
                    if l[1] in d:
                        d[l[1]] = v
                        return
                s.gstore(l[1], v)
            else:
                t = s.ev(l[1], sc)
                i = ("s", l[2]) if l[0] == "dot" else s.ev(l[2], sc)
                v = s.ev(x[2], sc)
                s.tput(t, i, v)
        elif k == "do":
            s.ev(x[1], sc)
        elif k == "if":
            if s.decide(s.ev(x[1], sc)):
                s.body(x[2], sc)
            elif x[3] is not None:
                s.body(x[3], sc)
        elif k == "while":
            while s.decide(s.ev(x[1], sc)):
                s.body(x[2], sc)
        elif k == "for":
            s.stat(x[1], sc)
            while s.decide(s.ev(x[2], sc)):
                s.body(x[4], sc)
                s.stat(x[3], sc)
        elif k == "ret":
            raise Ret(s.ev(x[1], sc) if x[1] else NIL)
        elif k != "fun":
            raise Bad(k)

    def ev(s, e, sc):
        k = e[0]
        if k == "n":
            return num(e[1])
        if k == "s":
            return ("s", e[2])
        if k == "nil":
            return NIL
        if k == "v":
            for d in reversed(sc or []):
                if e[1] in d:
                    return d[e[1]]
            return s.gload(e[1])
        if k == "par":
            return s.ev(e[1], sc)
        if k == "bin":
            a = s.ev(e[2], sc)
            return (OPS[e[1]], a, s.ev(e[3], sc))
        if k in ("not", "neg", "bnot"):
            return ({"not": "lnot", "neg": "unm", "bnot": "bnot"}[k], s.ev(e[1], sc))
        if k == "t":
            t = s.table()
            for n, x in e[1]:
                s.tput(t, ("s", n) if isinstance(n, str) else num(n[1]), s.ev(x, sc))
            return t
        if k == "dot":
            return s.tget(s.ev(e[1], sc), ("s", e[2]))
        if k == "idx":
            t = s.ev(e[1], sc)
            return s.tget(t, s.ev(e[2], sc))
        if k == "call":
            f = s.ev(e[1], sc)
            return s.call(f, [s.ev(a, sc) for a in e[2]])
        if k == "fn":
            self = NIL
            for d in sc or []:
                self = d.get("self", self)
            return s.closure(e[1], e[2], sc or [{}], self)
        raise Bad(k)


def num(t):
    return ("f" if "." in t else "n", float(t) if "." in t else int(t))


# ---- the meaning of assembly code -----------------------------------------------------------------------------------
def unescape(b):
    return re.sub(rb"\\(n|\\)", lambda m: b"\n" if m.group(1) == b"n" else b"\\", b)


class Mach(World):
    def load(s, asm):
        s.strs, s.code, s.lab, s.dbg, s.clo = [], [], {}, [], {}
        s.count = None
        for l in asm.split(b"\n"):
            if l[:1] == b"'":
                s.strs.append(unescape(l[1:]).decode("latin1"))
                continue
            l, _, d = l.partition(b"|")
            l = l.strip()
            if not l:
                continue
            if l[:1] == b"!":
                s.count = int(l[1:])
            elif l[:1] == b"@":
                if l in s.lab:
                    raise Bad("the label %s is placed twice" % l.decode())
                s.lab[l] = len(s.code)
            else:
                p = l.split()
                s.code.append((p[0].decode(), p[1] if len(p) > 1 else None))
                s.dbg.append(d)
        if s.count != len(s.strs):
            raise Bad("%s strings are announced and %d written" % (s.count, len(s.strs)))
        return s

    def bind(s, c, t):
        n = s.fresh("closure")
        a, fr = s.clo[c]
        s.clo[n] = (a, [t] + fr[1:])
        return n

    def target(s, a):
        if a not in s.lab:
            raise Bad("the label %s does not exist" % a.decode())
        return s.lab[a]

    def run(s):
        pc, stack, frame, calls = 0, [], None, []

        def pop():
            if not stack:
                raise Bad("'%s' pops from an empty stack" % op)
            return stack.pop()

        while True:
            s.tick()
            if pc >= len(s.code):
                raise Bad("the end of the code is passed")
            op, a = s.code[pc]
            pc += 1
            if op == "nop":
                pass
            elif op == "done":
                if stack or calls:
                    raise Bad("%d values are left on the stack at the end" % len(stack))
                s.trace.append(("end",))
                return s.trace
            elif op == "pushnil":
                stack.append(NIL)
            elif op == "dup":
                v = pop()
                stack += [v, v]
            elif op == "pop":
                pop()
            elif op in ("pushi", "pushf"):
                stack.append(num(a.decode()) if op == "pushf" else ("n", int(a)))
                if op == "pushf":
                    stack[-1] = ("f", float(a))
            elif op == "pushs":
                if not 0 <= int(a) < len(s.strs):
                    raise Bad("string %s does not exist" % a)
                stack.append(("s", s.strs[int(a)]))
            elif op == "pusht":
                stack.append(s.table())
            elif op in ("pushcn", "pushl"):
                c = s.fresh("closure")
                s.clo[c] = (s.target(a), list(frame) if op == "pushl" and frame is not None else [NIL])
                stack.append(c)
            elif op == "lload":
                if frame is None or int(a) >= len(frame):
                    raise Bad("the local variable %s does not exist" % int(a))
                stack.append(frame[int(a)])
            elif op == "lstore":
                if frame is None:
                    raise Bad("a local variable is stored outside functions")
                frame.extend([NIL] * (int(a) + 1 - len(frame)))
                frame[int(a)] = pop()
            elif op == "lremove":
                if frame is None or int(a) > len(frame):
                    raise Bad("%s local variables are removed that do not exist" % int(a))
                del frame[len(frame) - int(a):]
            elif op == "gload":
                stack.append(s.gload(pop()[1]))
            elif op == "gstore":
                v = pop()
                s.gstore(pop()[1], v)
            elif op == "tput":
                v, k = pop(), pop()
                s.tput(pop(), k, v)
            elif op == "tget":
                k = pop()
                stack.append(s.tget(pop(), k))
            elif op == "jump":
                pc = s.target(a)
            elif op in ("jumpz", "jumpnz"):
                b = s.decide(pop())
                if b == (op == "jumpnz"):
                    pc = s.target(a)
            elif op == "callc":
                n = pop()
                if n[0] != "n":
                    raise Bad("the number of arguments of a call is not a number")
                args = [pop() for _ in range(n[1])][::-1]
                f = pop()
                pop()
                if f in s.clo:
                    calls.append((pc, stack, frame))
                    pc, stack, frame = s.clo[f][0], [], list(s.clo[f][1]) + args
                elif f[0] in ("n", "s", "nil", "table"):
                    raise Bad("%s is called" % (f,))
                else:
                    stack.append(s.opaque(f, tuple(args)))
            elif op in ("ret0", "ret1"):
                v = pop() if op == "ret1" else NIL
                if not calls:
                    raise Bad("return outside functions")
                if stack:
                    raise Bad("%d values are left on the stack of a function that returns" % len(stack))
                pc, stack, frame = calls.pop()
                stack.append(v)
            elif op in BIN:
                b = pop()
                stack.append((op, pop(), b))
            elif op in UN:
                stack.append((op, pop()))
            else:
                raise Bad("unknown instruction '%s'" % op)
