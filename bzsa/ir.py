"""Compiles /repo's C sources to LLVM IR (clang -O0 -g, mem2reg) and loads them."""
import json, os, re, subprocess, sys, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("BZSA_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IRDUMP = os.path.join(HERE, "build", "irdump")


class AnalysisError(Exception):
    """The analysis itself could not be carried out (anchor vanished, budget, build failure)."""


def ensure_irdump():
    src = os.path.join(HERE, "engine", "irdump.cpp")
    if os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(IRDUMP), exist_ok=True)
    cfg = None
    for c in ("llvm-config-18", "/usr/lib/llvm-18/bin/llvm-config"):
        if shutil.which(c):
            cfg = c
            break
    flags = subprocess.check_output([cfg, "--cxxflags", "--ldflags", "--libs"], text=True).split()
    tmp = IRDUMP + ".%d" % os.getpid()
    subprocess.check_call(["clang++", "-O1", src, "-o", tmp] + flags)
    os.replace(tmp, IRDUMP)


def cc():
    for c in ("clang-18", "clang"):
        if shutil.which(c):
            return c
    raise AnalysisError("clang not found")


class Function:
    __slots__ = ("name", "mod", "blocks", "nargs", "ret", "argtys", "file", "line", "anames", "local", "_loops",
                 "ditys", "byid", "vararg")

    def __init__(s, name, mod, o):
        s.name = name
        s.mod = mod
        s.blocks = o["blocks"]
        s.nargs = o["nargs"]
        s.ret = o["ret"]
        s.argtys = o["argtys"]
        s.file = os.path.basename(o.get("file", mod.name))
        s.line = o.get("line", 0)
        s.anames = o["anames"]
        s.local = o["local"]
        s.vararg = o["vararg"]
        s.ditys = o.get("ditys", [])
        s._loops = None
        s.byid = {}
        for b in s.blocks:
            for ins in b:
                s.byid[ins["id"]] = ins

    def succs(s, b):
        t = s.blocks[b][-1]
        if t["op"] == "br":
            return t["succ"]
        if t["op"] == "switch":
            return [c[1] for c in t["cases"]] + [t["default"]]
        return []

    def loops(s):
        """head -> set of body blocks (natural loops from DFS back edges)"""
        if s._loops is not None:
            return s._loops
        n = len(s.blocks)
        preds = [[] for _ in range(n)]
        for b in range(n):
            for x in s.succs(b):
                preds[x].append(b)
        color = [0] * n
        back = []
        stack = [(0, iter(s.succs(0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                if color[x] == 0:
                    color[x] = 1
                    stack.append((x, iter(s.succs(x))))
                    break
                elif color[x] == 1:
                    back.append((b, x))
            else:
                color[b] = 2
                stack.pop()
        loops = {}
        for b, h in back:
            body = loops.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(preds[x])
        s._loops = loops
        return loops


class Module:
    pass


class Program:
    def __init__(s, files=None):
        ensure_irdump()
        s.mods = {}
        s.funcs = {}     # external linkage
        s.statics = {}   # name -> [Function]
        s.di = {}
        s.enums = {}
        s.typedefs = {}
        s.build(files)

    def build(s, files):
        src = os.path.join(REPO, "src")
        if files is None:
            files = sorted(glob.glob(os.path.join(src, "buzz", "*.c")))
        if not files:
            raise AnalysisError("no sources under %s" % src)
        tmp = tempfile.mkdtemp(prefix="bzsa_")
        try:
            inc = os.path.join(tmp, "inc", "buzz")
            os.makedirs(inc)
            cin = os.path.join(src, "buzz", "config.h.in")
            if os.path.exists(cin):
                txt = open(cin).read()
                txt = re.sub(r"@\w+@", "0", txt)
                open(os.path.join(inc, "config.h"), "w").write(txt)

            def one(f):
                bc = os.path.join(tmp, os.path.basename(f) + ".bc")
                r = subprocess.run([cc(), "-std=c99", "-D_GNU_SOURCE", "-DNDEBUG", "-I" + src,
                                    "-I" + os.path.join(tmp, "inc"), "-O0", "-g", "-Xclang", "-disable-O0-optnone",
                                    "-w", "-emit-llvm", "-c", f, "-o", bc], capture_output=True, text=True)
                if r.returncode:
                    raise AnalysisError("clang failed on %s:\n%s" % (f, r.stderr[-2000:]))
                r = subprocess.run([IRDUMP, bc], capture_output=True)
                if r.returncode:
                    raise AnalysisError("irdump failed on %s:\n%s" % (f, r.stderr[-2000:]))
                return json.loads(r.stdout)

            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(one, files))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for f, o in zip(files, res):
            m = Module()
            m.name = os.path.basename(f)
            m.path = f
            m.globals = o["globals"]
            m.funcs = {}
            m.decls = {}
            for k, v in o["di"].items():
                s.di.setdefault(k, v)
            for k, v in o["enums"].items():
                s.enums.setdefault(k if not k.startswith("anon_") else m.name + k, v)
            for k, v in o["typedefs"].items():
                s.typedefs.setdefault(k, v)
            for k, v in o["functions"].items():
                if v["decl"]:
                    m.decls[k] = v
                    continue
                fn = Function(k, m, v)
                m.funcs[k] = fn
                if fn.local or k == "main":
                    s.statics.setdefault(k, []).append(fn)
                else:
                    s.funcs[k] = fn
            s.mods[m.name] = m
        s.enumvals = {}
        for e in s.enums.values():
            s.enumvals.update(e)
        s.gdefs = {}
        for m in s.mods.values():
            for g, v in m.globals.items():
                if "init" in v and not v["local"]:
                    s.gdefs[g] = (m, v)

    def func(s, name, mod=None):
        """function by name; statics searched when unique (or in the given module)"""
        if mod is not None and name in mod.funcs:
            return mod.funcs[name]
        if name in s.funcs:
            return s.funcs[name]
        c = s.statics.get(name, [])
        if mod is None and len(c) == 1:
            return c[0]
        return None

    def need(s, name):
        f = s.func(name)
        if f is None:
            raise AnalysisError("anchor function %s() not found" % name)
        return f

    def allfuncs(s):
        for m in s.mods.values():
            for f in m.funcs.values():
                yield f

    def off(s, struct, field):
        d = s.di.get(struct)
        if d is None:
            raise AnalysisError("struct %s not found" % struct)
        for f in d["fields"]:
            if f["name"] == field:
                return f["off"]
        raise AnalysisError("field %s.%s not found" % (struct, field))

    def enum(s, name):
        if name not in s.enumvals:
            raise AnalysisError("enumerator %s not found" % name)
        return s.enumvals[name]

    def fieldname(s, struct, idx_off):
        d = s.di.get(struct)
        if not d:
            return None
        for f in d["fields"]:
            if f["off"] == idx_off:
                return f["name"]
        return None
