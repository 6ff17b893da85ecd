"""Check context: obligations, findings, evidence."""
import json, os, signal, sys, time, traceback
from .ir import Program, AnalysisError, HERE, REPO
from . import ir

KNOWN = os.path.join(HERE, "known_findings.json")


class Enough(BaseException):
    """a violation has been established and the rest of the analysis takes too long"""


def _enough(*a):
    raise Enough()


class Check:
    def __init__(s, pid):
        s.pid = pid
        s.tier = os.environ.get("VERIF_TIER", "quick")
        if s.tier not in ("quick", "thorough"):
            s.tier = "quick"
        s.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        s.t0 = time.time()
        s.findings = {}      # key -> dict
        s.rules = {}         # rule -> number of obligations discharged or failed
        s.samples = []
        s.functions = set()
        s.paths = 0
        s.steps = 0
        s.assumptions = []
        s.notes = []
        s._prog = None
        s._env = None
        s.grace = 60
        s.known = {}
        if os.path.exists(KNOWN):
            for k in json.load(open(KNOWN)).get("known", []):
                if k["property"] == pid:
                    s.known[k["key"]] = k["what"]

    @property
    def prog(s):
        if s._prog is None:
            s._prog = Program()
        return s._prog

    @property
    def env(s):
        if s._env is None:
            from .vmenv import Env
            s._env = Env(s.prog)
        return s._env

    def ob(s, rule, inst, sample=None, n=1):
        """one obligation examined"""
        s.rules[rule] = s.rules.get(rule, 0) + n
        if len(s.samples) < 12 and s.rules[rule] <= 2:
            s.samples.append("%s: %s%s" % (rule, inst, " => " + sample if sample else ""))

    def fail(s, rule, inst, where, msg, trail=()):
        key = "%s|%s" % (rule, inst)
        if key not in s.findings:
            if s.grace and key not in s.known:
                # the answer is known; what is broken may well make the rest of the analysis run forever
                signal.signal(signal.SIGALRM, _enough)
                signal.alarm(s.grace)
                s.grace = 0
            s.findings[key] = {"rule": rule, "instance": str(inst), "where": where, "message": msg,
                               "path": ["%s:%s %s" % (f, l, d) for f, l, d in trail][-40:]}

    def absorb(s, interp):
        s.functions |= interp.visited
        s.paths += interp.npaths
        s.steps += interp.steps

    def parallel(s, jobs, n=8, e=None):
        """run independent parts of the analysis in n processes; the order of the jobs does not matter"""
        import pickle
        s.prog
        n = max(1, min(n, len(jobs), os.cpu_count() or 1))
        if n == 1 or os.environ.get("BZSA_SERIAL"):
            for j in jobs:
                j()
            return
        sys.stdout.flush()
        sys.stderr.flush()
        kids = []
        for i in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                err = None
                s.findings, s.rules, s.samples, s.functions, s.paths, s.steps, s.notes = {}, {}, [], set(), 0, 0, []
                try:
                    for j in jobs[i::n]:
                        j()
                except Enough:
                    pass
                except AnalysisError as x:
                    err = str(x)
                except BaseException:
                    err = traceback.format_exc()
                signal.alarm(0)
                if e is not None and hasattr(e, "visited"):
                    s.absorb(e)
                with os.fdopen(w, "wb") as f:
                    pickle.dump((s.findings, s.rules, s.samples, s.functions, s.paths, s.steps, s.notes, err), f)
                os._exit(0)
            os.close(w)
            kids.append((pid, r))
        errs = []
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                d = f.read()
            os.waitpid(pid, 0)
            if not d:
                errs.append("a worker process died")
                continue
            fi, ru, sa, fu, pa, st, no, err = pickle.loads(d)
            for k, v in fi.items():
                s.findings.setdefault(k, v)
            for k, v in ru.items():
                s.rules[k] = s.rules.get(k, 0) + v
            s.samples += [x for x in sa if x not in s.samples][:max(0, 12 - len(s.samples))]
            s.functions |= fu
            s.paths += pa
            s.steps += st
            s.notes += [x for x in no if x not in s.notes]
            if err:
                errs.append(err)
        if errs:
            raise AnalysisError(errs[0])

    def assume(s, txt):
        s.assumptions.append(txt)


def main(pid):
    sys.path.insert(0, os.path.join(HERE, "checks"))
    sys.setrecursionlimit(20000)
    C = Check(pid)
    mod = __import__(pid)
    rc = 0
    try:
        mod.run(C)
        if not C.rules:
            raise AnalysisError("no obligation was generated")
        for r, n in getattr(mod, "MINIMA", {}).items():
            if C.rules.get(r, 0) < n:
                raise AnalysisError("rule %s matched %d instances, expected at least %d" % (r, C.rules.get(r, 0), n))
    except Enough:
        C.notes.append("The analysis was cut short after the first violations.")
    except AnalysisError as e:
        print("ERROR: analysis could not be carried out: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    signal.alarm(0)
    known = C.known
    new = {k: v for k, v in C.findings.items() if k not in known}
    for k in C.findings:
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    EV = os.environ.get("BZSA_EVID") or os.path.join(HERE, "evidence")
    os.makedirs(EV, exist_ok=True)
    if rc == 0 or new:
        nob = sum(C.rules.values())
        ev = {"property": pid, "tier": C.tier, "seed": C.seed, "level": "other",
              "coverage": {
                  "explanation": (mod.__doc__ or "").strip() + (" " + " ".join(C.notes) if C.notes else ""),
                  "obligations": nob, "discharged": nob - len(C.findings),
                  "obligations_per_rule": C.rules,
                  "functions_analysed": len(C.functions), "functions": sorted(C.functions),
                  "abstract_paths": C.paths, "instructions_interpreted": C.steps,
                  "files": len(C.prog.mods),
                  "known_findings": [k for k in C.findings if k in known],
                  "samples": C.samples},
              "assumptions": C.assumptions, "wall_s": round(time.time() - C.t0, 2), "violations": len(new)}
        json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    if new:
        rep = os.path.join(EV, pid + ".violation.txt")
        with open(rep, "w") as f:
            for k, v in sorted(new.items()):
                f.write("rule:     %s\ninstance: %s\nat:       %s\n%s\n" % (v["rule"], v["instance"], v["where"], v["message"]))
                if v["path"]:
                    f.write("abstract path (branch decisions):\n   " + "\n   ".join(v["path"]) + "\n")
                f.write("\n")
        for k, v in sorted(new.items())[:20]:
            print("%s [%s] %s: %s" % (v["where"], v["rule"], v["instance"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if rc == 0:
        print("%s: %d obligations over %d rules, %d functions, %d abstract paths: all hold%s (%.1fs)" % (
            pid, sum(C.rules.values()), len(C.rules), len(C.functions), C.paths,
            " except known findings" if C.findings else "", time.time() - C.t0))
    return rc
