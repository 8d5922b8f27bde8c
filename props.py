#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 props.py"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS, NA = [], []
TECH = "SMT-based symbolic execution of the compiled library code (LLVM IR), counterexamples replayed natively"


def P(id, title, statement, over, text, why, files, mech, level_note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      note=level_note, observe=observe))


def N(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech, None)
    NA.append((id, reason))


exec(open(os.path.join(HERE, "props_data.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    na = dict(NA)
    m = {"version": 1, "setup_cmd": "python3 build.py setup",
         "checks": [{"property": p["id"], "quick_cmd": "python3 run_check.py %s quick" % p["id"],
                     "thorough_cmd": "python3 run_check.py %s thorough" % p["id"],
                     "technique": TECH, "level": "model_checking", "level_note": p["note"]}
                    for p in PROPS if p["id"] not in na],
         "not_applicable": [{"property": k, "reason": v} for k, v in NA]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
