"""Build + run machinery shared by all checks (python3 standard library only)."""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, threading, time, fcntl
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NSYM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HAR = os.path.join(VERIF, "harness")
ENG = os.path.join(VERIF, "engine")
NSYM = os.path.join(BUILD, "engine", "nsym")
JOBS = min(8, os.cpu_count() or 4)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def die(msg):
    print("ERROR:", msg); sys.stdout.flush(); sys.exit(2)

def sha_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src", "lib")):
        out += [os.path.join(d, f) for f in fs if f.endswith(".c") and not f.endswith("_n.c")]
    return sorted(out)

def all_inputs():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(d, f) for f in fs if f.endswith((".c", ".h", ".noja")) and not f.endswith("_n.c")]
    out.append(os.path.join(REPO, "misc", "embedder.c"))
    out += [os.path.join(HAR, f) for f in os.listdir(HAR) if f.endswith((".c", ".h"))]
    return out

def harness_files():
    return sorted(os.path.join(HAR, f) for f in os.listdir(HAR) if f.startswith("h_") and f.endswith(".c"))

def entries():
    out = {}
    for f in harness_files():
        for m in re.finditer(r"^void (t_\w+)\(void\)", open(f).read(), re.M):
            out[m.group(1)] = f
    return out

def par(cmds):
    """run shell commands 8 at a time; return list of (cmd, output) failures"""
    fails, lock, it = [], threading.Lock(), iter(cmds)
    def w():
        while True:
            with lock:
                c = next(it, None)
            if c is None: return
            r = sh(c, shell=True)
            if r.returncode: fails.append((c, r.stdout))
    ts = [threading.Thread(target=w) for _ in range(JOBS)]
    [t.start() for t in ts]; [t.join() for t in ts]
    return fails

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-engine"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j4", "-C", ENG, "B=" + os.path.join(BUILD, "engine")])
        if r.returncode: die("engine build failed\n" + r.stdout[-3000:])

# What the code asks of the system goes through the harness, which can refuse it (libc.c, native.c: nsym_fault).
FAULTS = " ".join(f"-D{f}=nsym_{f}" for f in ("malloc", "calloc", "realloc", "strdup", "strndup", "fopen", "fmemopen", "fread", "fwrite", "fseek", "ftell", "fflush", "fclose", "getcwd", "opendir", "readdir", "closedir"))

def build():
    """Compile /repo's current sources: bitcode for the engine, sanitizer + release binaries for replay."""
    build_engine()
    key = sha_files(all_inputs())[:16]
    d = os.path.join(BUILD, "p_" + key)
    with open(os.path.join(BUILD, ".lock-prog"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "ok")):
            os.utime(d); return d
        old = sorted((p for p in os.listdir(BUILD) if p.startswith("p_")), key=lambda p: os.path.getmtime(os.path.join(BUILD, p)))
        for p in old[:-3]: shutil.rmtree(os.path.join(BUILD, p), ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        emb = os.path.join(d, "embedder")
        r = sh(f"gcc -w -o {emb} {REPO}/misc/embedder.c && {emb} {REPO}/src/lib/builtins/start.noja start_noja {d}/start_n.c", shell=True)
        if r.returncode: die("embedding start.noja failed\n" + r.stdout)
        lib = lib_sources() + [d + "/start_n.c"]
        cd = os.path.join(REPO, "src", "cli"); clis = sorted(os.path.join(cd, f) for f in os.listdir(cd) if f.endswith(".c"))
        har = harness_files()
        inc = f"-I{REPO}/src -I{REPO}/src/lib -I{HAR} -I{d}"
        base = f"-DNDEBUG -U_FORTIFY_SOURCE {inc}"
        bcf = f"clang -O0 -Xclang -disable-O0-optnone -g -fno-builtin -fno-inline -D__NO_CTYPE -DNSYM_ENGINE {base} -emit-llvm -c"
        asf = f"clang -O1 -g -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern {base} -c"
        rlf = f"gcc -O3 -g {base} -c"
        def compile_cmds(s, tag):
            x = " -Dmain=noja_cli_main" if s in clis else ""
            if s not in har: x += " -w"
            if s in lib or s in clis: x += " " + FAULTS
            if s in har: x += " -Wno-everything -Werror=incompatible-pointer-types -Werror=int-conversion"
            c = []
            if not s.endswith("native.c"): c.append(f"{bcf}{x} {s} -o {d}/{tag}.bc")
            if not s.endswith("libc.c"): c += [f"{asf}{x} {s} -o {d}/{tag}.a.o", f"{rlf} -w{x if s in clis or s in lib else str()} {s} -o {d}/{tag}.r.o"]
            return c
        srcs = lib + clis + har + [HAR + "/libc.c", HAR + "/native.c"]
        tags = {s: f"{i:03d}_" + os.path.basename(s)[:-2] for i, s in enumerate(srcs)}
        first = [s for s in srcs if not s.endswith("/native.c")]
        owner = {c: s for s in first for c in compile_cmds(s, tags[s])}
        dropped = {}
        for c, o in par(list(owner)):
            s = owner[c]
            if s not in har: die("compiling failed: " + c + "\n" + o[-3000:])
            dropped[s] = o[-1500:]          # a harness that no longer fits the code must not take the others down
        for attempt in range(6):
            live = [s for s in srcs if s not in dropped]
            es = sorted(e for e, f in entries().items() if f not in dropped)
            with open(d + "/entries.inc", "w") as f:
                f.write("".join(f"void {e}(void);\n" for e in es) + "static struct{const char*n;void(*f)(void);} ents[]={" + "".join(f'{{"{e}",{e}}},' for e in es) + "};\n")
            fails = par(compile_cmds(HAR + "/native.c", tags[HAR + "/native.c"]))
            if fails: die("compiling failed: " + fails[0][1][-3000:])
            b = " ".join(f"{d}/{tags[s]}.bc" for s in live if not s.endswith("/native.c"))
            a, r = (" ".join(f"{d}/{tags[s]}.{k}.o" for s in live if not s.endswith("/libc.c")) for k in "ar")
            fails = par([
                f"llvm-link-18 {b} -o {d}/all.bc && opt-18 -passes='default<O1>' -vectorize-loops=false -vectorize-slp=false {d}/all.bc -o {d}/prog.bc",
                f"clang -fsanitize=address {a} -o {d}/replay_asan -lm",
                f"gcc {r} -o {d}/replay_rel -lm"])
            if not fails: break
            miss = set(re.findall(r"undefined reference to `(\w+)'", "".join(f[1] for f in fails)))
            hit = [s for s in har if s not in dropped and miss & set(sh(f"nm -u {d}/{tags[s]}.r.o", shell=True).stdout.split())]
            if not hit: die("linking failed: " + fails[0][1][-3000:])
            for s in hit: dropped[s] = "undefined symbols " + " ".join(sorted(miss))
        json.dump(dropped, open(os.path.join(d, "dropped.json"), "w"))
        for f in os.listdir(d):
            if f.endswith((".o", ".bc")) and f != "prog.bc": os.unlink(os.path.join(d, f))
        open(os.path.join(d, "ok"), "w").close()
    return d

# ---------------------------------------------------------------- native replay
ASAN = "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1"
def native(d, which, entry, values, params, timeout=12):
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".in", delete=False) as f:
        f.write("\n".join(str(v) for v in values) + "\n"); path = f.name
    tmp = tempfile.mkdtemp(prefix="nsymrun")
    env = dict(os.environ, NSYM_INPUT=path, ASAN_OPTIONS=ASAN, TMPDIR=tmp, LC_ALL="C.UTF-8")
    for k, v in params.items(): env["NSYM_P_" + k] = str(v)
    try:
        def lim():
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_CPU, (timeout + 1, timeout + 1))
        p = subprocess.run([f"{d}/replay_{which}", entry], env=env, cwd=tmp, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim)
        out = p.stdout.decode("latin1")[-20000:]; err = p.stderr.decode("latin1")[-20000:]; rc = p.returncode
    except subprocess.TimeoutExpired:
        out, err, rc = "", "", "timeout"
    finally:
        os.unlink(path); shutil.rmtree(tmp, ignore_errors=True)
    m = re.search(r"NSYM-DIGEST ([0-9a-f]+)", out)
    return {"rc": rc, "digest": m.group(1) if m else None, "err": err}

def confirm(d, viol, params):
    """Replay a counterexample natively. Returns (confirmed, description)."""
    vals = [i[2] for i in viol["inputs"]]
    for which in ("asan", "rel"):
        r = native(d, which, viol["entry"], vals, params)
        rc = r["rc"]
        if rc == 78: continue
        if rc == 77:
            m = re.search(r"NSYM-CHECK-FAILED (.*)", r["err"])
            return True, f"{which}: check failed: {m.group(1) if m else '?'}"
        if rc == "timeout": 
            if viol["kind"] == "hang": return True, f"{which}: does not terminate"
            continue
        if rc == 99:
            m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", r["err"])
            return True, f"{which}: AddressSanitizer {m.group(1)[:200] if m else ''}"
        if isinstance(rc, int) and (rc < 0 or rc >= 128): return True, f"{which}: killed by signal {-rc if rc<0 else rc}"
    return False, "not reproduced natively"

# ---------------------------------------------------------------- engine runs
class Tokens:
    def __init__(self, n):
        self.path = os.path.join(BUILD, f".tok{os.getpid()}")
        with open(self.path, "wb") as f: f.write(struct.pack("<ii", 0, n) + b"\0" * 4088)
    def close(self): os.unlink(self.path)

def run_engine(d, jobs, deadline, samples=6, grace=0):
    """jobs: list of (entry, params, timeout). Runs them concurrently; returns list of records per job."""
    tok = Tokens(JOBS); res = [None] * len(jobs)
    odir = os.path.join(BUILD, f"run{os.getpid()}"); shutil.rmtree(odir, ignore_errors=True); os.makedirs(odir)
    procs = []
    sem = threading.Semaphore(JOBS * 2)
    def one(i):
        e, params, to = jobs[i]
        with sem:
            left = deadline - time.time()
            if left < 3: res[i] = {"rc": "deadline", "recs": []}; return
            out = f"{odir}/{i}.jsonl"; open(out, "w").close()
            cmd = [NSYM, "--entry", e, "--out", out, "--timeout", str(min(to, left)), "--tokens", tok.path, "--samples", str(samples), "--grace", str(grace)]
            for k, v in params.items(): cmd += ["--param", f"{k}={v}"]
            cmd.append(d + "/prog.bc")
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=os.setsid)
            try:
                o, _ = p.communicate(timeout=max(5, left + 20)); rc = p.returncode
            except subprocess.TimeoutExpired:
                o, rc = b"", "deadline"
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            recs = []
            for l in open(out, errors="replace"):
                try: recs.append(json.loads(l))
                except ValueError: pass
            res[i] = {"rc": rc, "recs": recs, "out": o.decode("latin1")[-2000:]}
    ts = [threading.Thread(target=one, args=(i,)) for i in range(len(jobs))]
    [t.start() for t in ts]; [t.join() for t in ts]
    tok.close(); shutil.rmtree(odir, ignore_errors=True)
    return res

def labels_of(entry, kind):
    f = entries().get(entry)
    if not f: return set()
    src = open(f).read()
    m = re.search(r"^void %s\(void\)(.*?)(?=^void t_|\Z)" % entry, src, re.M | re.S)
    return set(re.findall(r'sym_%s\("([^"]*)"\)' % kind, m.group(1))) if m else set()
