#!/usr/bin/env python3
"""Decide one property: run its harnesses under the symbolic executor, replay what it finds."""
import json, os, re, resource, subprocess, sys, tempfile, time, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from checks import CHECKS
VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
HARD = {"quick": 780, "thorough": 4 * 3600}


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) entry=(\S+) kind=(\S+) label=\[(.*?)\] where=\[(.*?)\] (.*)", l)
            if m:
                out.append(m.groups())
    return out


def run_entry(mse, bc, entry, opts, tmp, deadline):
    out = os.path.join(tmp, entry + ".json")
    left = max(5, deadline - time.time())
    t = min(opts.get("time", 100), left)
    cmd = [mse, bc, "--entry", entry, "--out", out, "--max-time", str(int(t)),
           "--max-findings", str(opts.get("findings", 3)), "--solver-ms", str(opts.get("solver_ms", 20000))]
    for k, f in (("instr", "--max-instr"), ("enum", "--max-enum"), ("preempt", "--max-preempt"), ("malloc", "--malloc-limit"), ("timeouts", "--max-timeouts")):
        if k in opts:
            cmd += [f, str(opts[k])]
    if opts.get("races"):
        cmd.append("--races")
    if opts.get("hang"):
        cmd.append("--hang")
    t0 = time.time()
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (opts.get("mem_gb", 12) << 30,) * 2)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=t + 90, preexec_fn=lim)
        rc, err = r.returncode, r.stderr[-800:]
    except subprocess.TimeoutExpired:
        rc, err = -1, "engine wall time limit"
    try:
        res = json.load(open(out))
    except Exception:
        res = {"entry": entry, "error": "engine gave no result (rc=%s) %s" % (rc, err), "findings": [], "samples": []}
    res["rc"] = rc
    res["total_s"] = round(time.time() - t0, 2)
    if err.strip():
        res["stderr"] = err
    return res


def write_replay(path, harness, defs, entry, f, opts):
    with open(path, "w") as o:
        o.write("harness %s\nentry %s\ndefs %s\n" % (harness, entry, " ".join(defs)))
        if "kind" in f:
            o.write("kind %s\nlabel %s\nwhere %s\n" % (f["kind"], f["label"], f.get("where", "")))
            for s in f.get("stack", []):
                o.write("stack %s\n" % s)
        o.write("bounds %d %d\n" % (opts.get("preempt", 2), opts.get("timeouts", 1)))
        if f.get("sched"):
            o.write("sched %s\n" % " ".join(map(str, f["sched"])))
        for n, x in f["inputs"]:
            o.write("in %s %s\n" % (n, x))


def native_run(exe, replay, entry, timeout, trace=None):
    d = tempfile.mkdtemp(prefix="mse_replay_")
    env = dict(os.environ, TZ="UTC", LC_ALL="C", MALLOC_PERTURB_="85",
               ASAN_OPTIONS="detect_leaks=0:malloc_fill_byte=170:max_malloc_fill_size=1073741824:allocator_may_return_null=1:"
                            "hard_rss_limit_mb=8000:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0:color=never")
    try:
        r = subprocess.run([exe, replay, entry] + ([trace] if trace else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout, env=env, cwd=d)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    finally:
        subprocess.run(["rm", "-rf", d])


def confirm(harness, defs, replay, entry, kind):
    """(confirmed, text).  A run that ends in a failed check, a sanitizer report, a crash or (for hangs) no end."""
    text = ""
    for san in (("race",) if kind == "race" else (True, False)):
        exe = build.native_bin(harness, defs, san)
        rc, out = native_run(exe, replay, entry, 20)
        text = "[%s rc=%s]\n%s" % ({True: "asan", False: "plain"}.get(san, san), rc, out[-3000:])
        if rc == 42 and (kind != "race" or "DATA-RACE" in out):
            return True, text
        if rc == "timeout":
            if kind == "hang":
                return True, text
            continue
        if "AddressSanitizer" in out or (isinstance(rc, int) and rc < 0) or rc in (134, 136, 139):
            return True, text
    return False, text


def same_trace(a, b):
    return a == b


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        kv = {}
        for l in open(sys.argv[2]):
            k, _, v = l.rstrip("\n").partition(" ")
            kv.setdefault(k, v)
        ok, text = confirm(kv["harness"], kv["defs"].split(), os.path.abspath(sys.argv[2]), kv["entry"], kv.get("kind"))
        print(text)
        print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    spec = CHECKS[prop]
    t0 = time.time()
    deadline = t0 + HARD[tier] - 150
    defs = ["-DTIER=%d" % (0 if tier == "quick" else 1)]
    mse = build.engine()
    jobs = []
    for harness, entry, opts in spec["entries"]:
        if only and not re.search(only, entry):
            continue
        o = dict(opts)
        if tier == "thorough":
            o["time"] = o.get("time_thorough", max(900, o.get("time", 60) * 6))
            o["solver_ms"] = max(o.get("solver_ms", 0), 120000)
            if "preempt_thorough" in o:
                o["preempt"] = o["preempt_thorough"]
        elif o.get("thorough_only"):
            continue
        jobs.append((harness, entry, o))
    jobs.sort(key=lambda j: -j[2].get("cost", 1))
    build.lib_objs()
    bcs = {hn: build.harness_bc(hn, defs) for hn in sorted({j[0] for j in jobs})}
    tbuild = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="mse_")
    repdir = os.path.join(EVID, "replays", prop)
    subprocess.run(["rm", "-rf", repdir])
    os.makedirs(repdir, exist_ok=True)
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("MSE_JOBS", os.cpu_count() or 4))) as ex:
        res = list(ex.map(lambda j: run_entry(mse, bcs[j[0]], j[1], j[2], tmp, deadline), jobs))
    known = known_findings()
    viol, knownhit, unconfirmed = [], [], []
    for (harness, entry, o), r in zip(jobs, res):
        for i, f in enumerate(r["findings"]):
            path = os.path.join(repdir, "%s-%d.replay" % (entry, i))
            write_replay(path, harness, defs, entry, f, o)
            k = [x for x in known if x[0] == prop and x[1] == entry and x[2] == f["kind"] and x[3] == f["label"] and x[4] == f["where"]]
            if k:
                knownhit.append(k[0])
                continue
            if len(viol) >= 3 and time.time() > deadline:
                break
            ok, text = confirm(harness, defs, path, entry, f["kind"])
            with open(path, "a") as o2:
                o2.write("# native replay: %s\n" % ("reproduced" if ok else "NOT reproduced"))
                for l in text.splitlines()[:60]:
                    o2.write("# %s\n" % l)
            (viol if ok else unconfirmed).append((entry, f, path))
    # sampled complete paths: the native run must take the same path and see the same values
    validated, disagreements, vlog = 0, 0, []
    if time.time() < deadline:
        for hn in sorted(bcs):
            exe = build.native_bin(hn, defs, False)
            for (harness, entry, o), r in zip(jobs, res):
                if harness != hn or o.get("no_native"):
                    continue
                for i, s in enumerate(r.get("samples", [])[: o.get("samples", 6)]):
                    rp, tp = os.path.join(tmp, "s.replay"), os.path.join(tmp, "s.trace")
                    write_replay(rp, harness, defs, entry, s, o)
                    if os.path.exists(tp):
                        os.remove(tp)
                    rc, out = native_run(exe, rp, entry, 20, tp)
                    tr = [l.rstrip("\n") for l in open(tp)] if os.path.exists(tp) else []
                    ok = rc == 0 and tr[:-1] == s["trace"][:400]
                    if ok:
                        validated += 1
                    else:
                        disagreements += 1
                        if len(vlog) < 5:
                            diff = [(a, b) for a, b in zip(s["trace"], tr) if a != b][:3]
                            vlog.append({"entry": entry, "rc": rc, "inputs": s["inputs"], "diff": diff, "out": out[-300:],
                                         "len": [len(s["trace"]), len(tr) - 1]})
    subprocess.run(["rm", "-rf", tmp])
    tot = lambda k: sum(r.get(k, 0) for r in res)
    funcs = sorted({f for r in res for f in r.get("functions", [])})
    stubs = sorted({f for r in res for f in r.get("stubs", [])})
    incomplete = {r["entry"]: r["incomplete"] for r in res if r.get("incomplete")}
    errors = {r["entry"]: r["error"] for r in res if r.get("error")}
    uncovered = {r["entry"]: r["uncovered"] for r in res if r.get("uncovered")}
    vacuous = [r["entry"] for r in res if not r.get("error") and not r.get("checks") and not r["findings"]]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": tot("paths_completed"), "transitions": tot("instructions"),
            "traces_validated_against_impl": validated, "trace_disagreements": disagreements, "disagreement_detail": vlog,
            "samples": [{"entry": r["entry"], "inputs": r["samples"][0]["inputs"][:12]} for r in res if r.get("samples")][:8],
            "meaning": "states = symbolic paths explored to their end, each deciding its assertions for all inputs on that path; "
                       "transitions = IR instructions executed symbolically",
            "exhaustive": not (incomplete or errors),
            "queries": tot("queries"), "queries_unsat": tot("queries_unsat"), "queries_sat": tot("queries_sat"),
            "queries_unknown": tot("queries_unknown"), "solver_s": round(tot("solver_s"), 2),
            "decided_by_truth_table_of_a_byte": tot("domain_decided"),
            "assertions_reached": sum(sum(r.get("checks", {}).values()) for r in res),
            "assertions_decided_by_solver": sum(sum(r.get("checks_solver", {}).values()) for r in res),
            "symbolic_memory_checks": tot("memory_checks_symbolic"),
            "functions_encoded": funcs, "models_used": stubs,
            "entries": {r["entry"]: {"paths": r.get("paths_completed", 0), "queries": r.get("queries", 0),
                                     "solver_s": round(r.get("solver_s", 0), 2), "wall_s": r["total_s"],
                                     "bounds": r.get("bounds", {}), "assertions": r.get("checks", {}),
                                     "reached": r.get("covers", {})} for r in res},
            "incomplete": incomplete, "errors": errors, "witnesses_not_reached": uncovered, "vacuous_entries": vacuous,
            "findings_not_reproduced": [{"entry": e, "kind": f["kind"], "label": f["label"], "where": f["where"], "replay": p}
                                        for e, f, p in unconfirmed],
            "build_s": round(tbuild, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(EVID, exist_ok=True)
    if not only:
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print("%s %s: %d paths, %d queries (%d unknown), solver %.1fs, %d functions, validated %d (disagree %d), wall %.1fs" %
          (prop, tier, c["states"], c["queries"], c["queries_unknown"], c["solver_s"], len(funcs), validated, disagreements, ev["wall_s"]))
    for k, v in incomplete.items():
        print("  incomplete %s %s" % (k, v))
    for k, v in errors.items():
        print("  error %s %s" % (k, v))
    for k, v in uncovered.items():
        print("  not reached %s %s" % (k, v))
    if vacuous:
        print("  vacuous", vacuous)
    for v in vlog:
        print("  disagreement", json.dumps(v)[:600])
    for e, f, p in unconfirmed:
        print("  not reproduced natively: %s %s [%s] at %s (%s)" % (e, f["kind"], f["label"], f["where"], p))
    if os.environ.get("MSE_V"):
        for r in res:
            print("   %-32s paths %6d q %6d solver %7.1f wall %7.1f instr %9d rss %s" % (
                r["entry"], r.get("paths_completed", 0), r.get("queries", 0), r.get("solver_s", 0), r["total_s"], r.get("instructions", 0), r.get("maxrss_mb")))
    for k in sorted(set(knownhit)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[5]))
    for e, f, p in viol:
        print("  %s: %s [%s] at %s" % (e, f["kind"], f["label"], f["where"]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if viol:
        return 1
    return 2 if len(errors) == len(res) else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:   # no verdict (for instance the tree does not compile): neither held nor violated
        print("no verdict: %s" % str(e)[-2000:])
        rc = 2
    sys.exit(rc)
