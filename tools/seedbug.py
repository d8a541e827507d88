#!/usr/bin/env python3
"""seedbug.py ID... : confirm planted bugs in scratch copies (applies, builds, tests pass, demo) and run their property's check against the copy."""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd, env=None, t=900):
    try: p = subprocess.run(c, shell=True, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t); return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired: return "timeout", ""
MK = 'make -j8 CC="gcc -MMD" OUTDIR=_build OBJDIR=_build/cache all'
for bid in sys.argv[1:]:
    if bid.startswith("-"): continue
    b = f"{V}/seeded/{bid}"; m = json.load(open(b + "/meta.json")); S = f"/tmp/seed_{bid}"; shutil.rmtree(S, ignore_errors=True); sh(f"cp -a /repo {S}", "/")
    try:
        msg = []
        rc, o = sh(f"bash {b}/demo.sh", S, t=300); msg.append(f"clean demo={rc}")
        if rc != 0: print(bid, "DEMO FAILS ON CLEAN", o[-500:]); continue
        rc, o = sh(f"git apply {b}/patch.diff", S)
        if rc: print(bid, "DOES NOT APPLY", o); continue
        sh("rm -rf _build/cache _build/noja _build/test _build/libnoja.a; mkdir -p _build/cache", S); rc, o = sh(MK, S)
        if rc: print(bid, "BUILD FAILS", o[-1500:]); continue
        sh(f"sed 's#/repo#{S}#' /opt/vp/runtests.py > /tmp/rt_{bid}.py; python3 /tmp/rt_{bid}.py {S}/_build/results.txt", S)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); res = dict(l.split(" ", 1)[::-1] for l in open(S + "/_build/results.txt").read().splitlines() if l)
        f = [t for t in stable if res.get(t) != "PASS"]
        if f: print(bid, "TESTS FAIL", len(f), f[:3]); continue
        rc, o = sh(f"bash {b}/demo.sh", S, t=300)
        if rc == 0: print(bid, "DEMO PASSES WITH BUG", o[-300:]); continue
        msg.append(f"bug demo={rc}")
        for pid in ([m["property"]] if "--all" not in sys.argv else [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]):
            t = time.time(); rc, o = sh(f"python3 check.py {pid}", V, dict(os.environ, NSYM_REPO=S, NSYM_EVID=f"/tmp/seed_ev_{bid}"))
            msg.append(f"{pid}: rc={rc} {'CAUGHT' if rc == 1 and 'VIOLATION property=' + pid in o else 'missed'} {time.time()-t:.0f}s")
            if "-v" in sys.argv or rc not in (0, 1): msg.append(o[-1500:])
        print(bid, "; ".join(msg)); sys.stdout.flush()
    finally:
        shutil.rmtree(S, ignore_errors=True); shutil.rmtree(f"/tmp/seed_ev_{bid}", ignore_errors=True)
        if os.path.exists(f"/tmp/rt_{bid}.py"): os.unlink(f"/tmp/rt_{bid}.py")
