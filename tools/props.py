#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    PROPS.append({"id": pid, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                              "observe_at": observe or []},
                  "_t": technique, "_n": note, "_na": na})


VF = "gated interprocedural value-flow (dataflow) analysis over the type-checked clang AST"
NOTE = ("Decided statically for all inputs and paths from value-flow summaries of the resolved program; loops are "
        "summarised as folds, library calls by models (trusted). Code written in an idiom without a model is "
        "reported as undecided, never as a violation.")

exec(open(os.path.join(V, "tools", "table.py")).read())


def main():
    checks, na = [], []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
            if p["_na"]:
                na.append({"property": p["id"], "reason": p["_na"]})
            else:
                checks.append({"property": p["id"],
                               "quick_cmd": "python3 run.py %s quick" % p["id"],
                               "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                               "technique": p["_t"] or VF, "level": "other", "level_note": p["_n"] or NOTE})
    json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
