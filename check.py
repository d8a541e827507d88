#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property on /repo's current tree."""
import json, os, sys, time, shutil, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import VERIF, BUILD
from registry import PROPS
from spec import SPEC

def known():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                r = json.loads(l)
                if r.get("status") == "known": out.append(r)
    return out

def matches(k, pid, v, desc):
    return (k["property"] == pid and k.get("entry", v["entry"]) == v["entry"] and k.get("kind", v["kind"]) == v["kind"]
            and k.get("label", v["label"]) == v["label"] and k.get("func", v["func"]) == v["func"])

def settle(d, jobs, res, deadline):
    """A run that stopped early because of a violation which doesn't reproduce natively is repeated in full."""
    redo = []
    for i, r in enumerate(res):
        if any(x["t"] == "stat" and any("time budget after a violation" in w for w in x["why"]) for x in r["recs"]):
            if not any(x["t"] == "viol" and vlib.confirm(d, x, jobs[i][1])[0] for x in r["recs"]): redo.append(i)
    for i, r in zip(redo, vlib.run_engine(d, [jobs[i] for i in redo], deadline)): res[i] = r

def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    verbose = "-v" in sys.argv
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time(); prop = PROPS[pid]
    d = vlib.build(); tb = time.time() - t0
    dropped = json.load(open(os.path.join(d, "dropped.json")))
    gone = {h["entry"] for h in prop["harnesses"] if vlib.entries().get(h["entry"]) in dropped or h["entry"] not in vlib.entries()}
    for f in dropped:
        if any(vlib.entries().get(e) == f for e in gone): print(f"  harness file {f} does not fit the current code: {dropped[f][-400:]}")
    if gone and len(gone) == len(prop["harnesses"]): vlib.die("no harness of this property could be compiled")
    budget = 600 if tier == "quick" else 3300
    deadline = t0 + budget
    jobs = []
    for h in prop["harnesses"]:
        if (only and h["entry"] != only) or h["entry"] in gone: continue
        for ps in (h.get("cases") or [{}]) + (h.get("tcases", []) if tier == "thorough" else []):
            params = dict(h.get("params", {})); params.update(ps)
            if tier == "thorough": params.update(h.get("thorough", {}))
            jobs.append((h["entry"], params, h.get("timeout", 500 if tier == "quick" else 3000)))
    res = vlib.run_engine(d, jobs, deadline, grace=40 if tier == "quick" else 150)
    settle(d, jobs, res, deadline)
    agg = dict(paths=0, forks=0, steps=0, checks=0, check_queries=0, assume_killed=0, incomplete=0, errors=0, queries=0, cache_hits=0, sat=0, unsat=0, unknown=0, solver_s=0.0)
    funcs = set(); covers = {}; checks = {}; why = []; samples = []; viols = []; paths = []; per = {}; crashed = 0; maxq = 0
    for (e, params, to), r in zip(jobs, res):
        st = per.setdefault(e, {"runs": 0, "paths": 0, "incomplete": 0, "params": []}); st["runs"] += 1
        if params and params not in st["params"] and len(st["params"]) < 12: st["params"].append(params)
        nstat = 0
        for x in r["recs"]:
            if x["t"] == "stat":
                nstat += 1
                for k in agg: agg[k] += x.get(k, 0)
                st["paths"] += x["paths"]; st["incomplete"] += x["incomplete"]
                funcs.update(x["funcs"]); why += x["why"]; maxq = max(maxq, x["max_query_s"])
                for k, v in x["cover"].items(): covers[(e, k)] = covers.get((e, k), 0) + v
                for k, v in x["checks_by"].items(): checks[k] = checks.get(k, 0) + v
            elif x["t"] == "viol": viols.append((x, params))
            elif x["t"] == "path": paths.append((x, params))
            elif x["t"] == "crash": crashed += 1; why.append("engine worker crashed")
        if nstat == 0: crashed += 1; why.append(f"engine gave no answer on {e}: {r['rc']} {r.get('out','')[-300:]}")
    # --- replay counterexamples
    kn = known(); printed = set(); bad = []; unconf = []; knownhits = []
    rdir = os.path.join(os.environ.get("NSYM_EVID") or VERIF, "out", pid); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    seen = {}
    for v, params in viols:
        key = (v["entry"], v["kind"], v["label"], v["func"])
        if seen.get(key, 0) >= 1 and any(b[0] == key for b in bad): continue
        if seen.get(key, 0) >= 6: continue
        seen[key] = seen.get(key, 0) + 1
        ok, desc = vlib.confirm(d, v, params)
        if v["kind"] == "incomplete": # the executor could not follow the path; its inputs may fail natively all the same
            if not ok: continue
            v = dict(v, kind="check", label=desc.split("check failed: ")[-1])
        if not ok:
            unconf.append({"entry": v["entry"], "kind": v["kind"], "label": v["label"], "where": v["where"], "inputs": v["inputs"][:20]}); continue
        k = next((k for k in kn if matches(k, pid, v, desc)), None)
        if k:
            if k["id"] not in printed:
                printed.add(k["id"]); print(f"KNOWN-FINDING: property={pid} {k['what']}")
            knownhits.append(k["id"]); continue
        path = os.path.join(rdir, f"cex{len(bad)}.json")
        json.dump({"property": pid, "confirmed": desc, "params": params, "replay": f"python3 {VERIF}/replay.py {path}", **v}, open(path, "w"), indent=1)
        bad.append((key, path, desc, v))
    # --- trace validation: engine paths re-run on the real build
    val = 0; mism = []
    for x, params in paths[:: max(1, len(paths) // (60 if tier == "quick" else 300))]:
        if time.time() > deadline + 60: break
        r = vlib.native(d, "asan", x["entry"], [i[2] for i in x["inputs"]], params)
        if r["digest"] == x["digest"]: val += 1
        elif r["rc"] in (77, 99) and not any(k["property"] == pid and k.get("entry") == x["entry"] for k in kn): # what the solver chose for a path fails on the real build
            v = {"entry": x["entry"], "kind": "check", "label": "", "func": "", "where": "native run of a completed path", "inputs": x["inputs"]}; ok, desc = vlib.confirm(d, v, params)
            v["label"] = desc.split("check failed: ")[-1]; path = os.path.join(rdir, f"cex{len(bad)}.json")
            if ok: json.dump({"property": pid, "confirmed": desc, "params": params, "replay": f"python3 {VERIF}/replay.py {path}", **v}, open(path, "w"), indent=1); bad.append(((v["entry"], "check", v["label"], ""), path, desc, v))
        else: mism.append({"entry": x["entry"], "inputs": x["inputs"][:12], "engine": x["digest"], "native": r["digest"], "rc": r["rc"], "err": r["err"][-300:]})
        if len(samples) < 6: samples.append({"entry": x["entry"], "inputs": x["inputs"][:16], "observed": x["out"], "native_agrees": r["digest"] == x["digest"]})
    miss = sorted(f"{e}:{l}" for e in {j[0] for j in jobs} for l in vlib.labels_of(e, "cover") if (e, l) not in covers)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": prop.get("level", "model_checking"),
          "coverage": {"states": agg["paths"] + agg["forks"], "transitions": agg["steps"], "traces_validated_against_impl": val, "samples": samples or [{"note": "no completed path"}],
              "paths": agg["paths"], "forks": agg["forks"], "assertions_evaluated": agg["checks"], "assertions_decided_by_solver": agg["check_queries"], "assertion_labels": checks,
              "solver_queries": agg["queries"], "solver_cache_hits": agg["cache_hits"], "sat": agg["sat"], "unsat": agg["unsat"], "unknown": agg["unknown"], "solver_seconds": round(agg["solver_s"], 3), "slowest_query_s": round(maxq, 3),
              "exhaustive_within_bounds": agg["incomplete"] == 0 and crashed == 0, "incomplete": agg["incomplete"], "incomplete_reasons": sorted(set(why))[:10],
              "bounds": SPEC.get(pid, {}).get("bounds", ""), "harness_runs": per, "covers_reached": len(covers), "covers_missing": miss, "functions_encoded": sorted(funcs),
              "trace_mismatches": mism[:5], "unconfirmed_counterexamples": unconf[:5], "known_findings": knownhits, "build_s": round(tb, 2)},
          "assumptions": prop.get("assumptions", []) + COMMON, "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    edir = os.environ.get("NSYM_EVID") or os.path.join(VERIF, "evidence"); os.makedirs(edir, exist_ok=True)
    json.dump(ev, open(os.path.join(edir, pid + ".json"), "w"), indent=1)
    print(f"{pid} [{tier}] paths={agg['paths']} forks={agg['forks']} steps={agg['steps']} checks={agg['checks']} queries={agg['queries']} unsat={agg['unsat']} solver={agg['solver_s']:.1f}s incomplete={agg['incomplete']} traces_ok={val} mism={len(mism)} unconfirmed={len(unconf)} wall={ev['wall_s']}s")
    if miss: print("  covers not reached:", ", ".join(miss))
    if why: print("  incomplete:", "; ".join(sorted(set(why))[:6]))
    if verbose:
        for m in mism[:5]: print("  MISMATCH", json.dumps(m))
        for u in unconf[:8]: print("  UNCONFIRMED", json.dumps(u)[:600])
        for e, s in per.items(): print("   ", e, s["runs"], "runs", s["paths"], "paths", s["incomplete"], "incomplete")
    for key, path, desc, v in bad:
        print(f"  counterexample {v['kind']} '{v['label']}' at {v['where'][:200]} [{desc}]")
        print(f"    inputs: {json.dumps(v['inputs'])[:400]}")
    if bad:
        for b in bad[:5]: print(f"VIOLATION property={pid} replay={b[1]}")
        sys.exit(1)
    sys.exit(0)

COMMON = ["C library modelled by /verif/harness/libc.c (files in memory, sockets fail unless the harness models them, fprintf to stdout/stderr discarded)",
          "malloc never fails below 1 GiB; above it returns NULL", "LLVM -O1 IR of the unmodified sources compiled with -DNDEBUG (the release configuration)",
          "uninitialised memory reads as 0xA5 bytes", "z3 answers are trusted; counterexamples are only reported after they reproduce on the native build"]
if __name__ == "__main__": main()
