#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 meta/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = "abstract interpretation of the LLVM IR of /repo (value numbering, intervals, widening), no execution, no solver"


def prop(id, title, statement, over, qtext, why, files, mech, tech=None, note=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why=why,
                  files=files, mech=mech, tech=tech or TECH, note=note, state=state, observe=observe))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech)
    P[-1]["na"] = reason
    NA.append((id, reason))


VM = ["src/buzz/buzzvm.c", "src/buzz/buzzvm.h", "src/buzz/buzztype.c", "src/buzz/buzztype.h"]
exec(open(os.path.join(HERE, "meta", "list.py")).read())

BASE_NOTE = ("Sound for the rule stated over every abstract path of the compiled source, under: distinct pointer terms do not "
             "alias, allocation succeeds, 32-bit overflow not modelled, container interface functions behave as modelled "
             "(their own code is checked by the container properties). ")


def main():
    ids = set()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert p["id"] not in ids, p["id"]
            ids.add(p["id"])
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": [dict(name=n, where=w) for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=p["quantifier"],
                                    why_tests_cant=p["why"], anchors=a)) + "\n")
    checks = []
    for p in sorted(P, key=lambda p: p["id"]):
        if "na" in p:
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py " + p["id"],
                           thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"], evidence_file="evidence/%s.json" % p["id"],
                           technique=p["tech"], level="other", level_note=BASE_NOTE + (p["note"] or "")))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
             not_applicable=[dict(property=i, reason=r) for i, r in sorted(NA)],
             notes="Static analysis only; no hooks are needed in /repo. See DESIGN.md.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
