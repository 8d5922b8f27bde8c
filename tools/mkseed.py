#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text)"""
import json, os, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
specs = ns["SEEDS"]
for s in specs:
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]).strip(), "repo dirty"
    try:
        for f, a, b in s["edits"]:
            p = "/repo/" + f
            t = open(p, newline="").read()
            crlf = "\r\n" in t
            if crlf:
                a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
            assert t.count(a) == 1, (s["id"], f, t.count(a), a)
            open(p, "w", newline="").write(t.replace(a, b))
        diff = subprocess.check_output(["git", "-C", "/repo", "diff"])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.cpp", "w").write(s["demo"])
    subprocess.check_call(["cp", "/verif/tools/demo.sh", d + "/demo.sh"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", d)
