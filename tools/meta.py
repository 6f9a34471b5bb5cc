#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing.  Not used by any
check."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level="other",
         note="", observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
    if technique:
        CHECKS.append(dict(property=id, quick_cmd="python3 check.py %s" % id,
                           thorough_cmd="python3 check.py %s --tier thorough" % id,
                           evidence_file="evidence/%s.json" % id,
                           technique=technique, level=level, level_note=note))


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

assert len({p["id"] for p in PROPS}) == len(PROPS)
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
claimed = {c["property"] for c in CHECKS} | {n["property"] for n in NA}
assert claimed == {p["id"] for p in PROPS}, claimed ^ {p["id"] for p in PROPS}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 setup.py",
                   checks=sorted(CHECKS, key=lambda c: c["property"]),
                   not_applicable=sorted(NA, key=lambda c: c["property"]),
                   notes="All checks are static analyses of LLVM IR (clang -O0 + mem2reg) of "
                         "/repo's current tree; no code of /repo is executed and no solver is "
                         "used.  No hooks in /repo are needed."),
              f, indent=1)
    f.write("\n")
