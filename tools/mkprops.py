#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []
CTX, EVA, SY, TOK, SPL = ("prexel/src/context.rs", "prexel/src/evaluator.rs", "prexel/src/utils/shunting_yard.rs",
                          "prexel/src/tokenizer.rs", "prexel/src/utils/splitter.rs")


def prop(pid, title, statement, over, text, why, files, mech, state=None, observe=None, check=None, na=None):
    p = {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        p["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        p["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(p)
    if na:
        NA.append({"property": pid, "reason": na})
    else:
        tech, level, note = check
        CHECKS.append({"property": pid, "quick_cmd": "./check.py " + pid, "thorough_cmd": "./check.py %s --thorough" % pid,
                       "technique": tech, "level": level, "level_note": note})


exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": CHECKS,
    "not_applicable": NA,
    "notes": "Every check builds the MIR fact driver (driver/), type-checks /repo's current tree under it, and decides its property from "
             "the dumped MIR; nothing of /repo is executed. See DESIGN.md.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("%d properties, %d checks, %d not applicable" % (len(PROPS), len(CHECKS), len(NA)))
