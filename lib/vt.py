"""Build and run machinery shared by all checks."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUILD = os.path.join(os.environ.get("VT_BUILD", os.path.join(VERIF, "build")))
JOBS = int(os.environ.get("VT_JOBS", str(os.cpu_count() or 8)))


class CheckError(Exception):
    """The check itself could not run (not a verdict about the property)."""


def repo_sources():
    s = sorted(glob.glob(REPO + "/src/qrl/*.cpp")) + sorted(glob.glob(REPO + "/src/xmss-alt/*.c")) \
        + sorted(glob.glob(REPO + "/src/xmss-alt/*.cpp")) + sorted(glob.glob(REPO + "/src/shasha/*.cpp"))
    return s


INCLUDES = ["src/api", "src", "deps", "src/xmss-alt", "src/qrl", "src/shasha", "src/dilithium", "src/kyber"]


def tree_hash(extra, files=(), roots=()):
    h = hashlib.sha256()
    for f in files:
        with open(f, "rb") as fh:
            h.update(fh.read())
    for root in (REPO + "/src", VERIF + "/lib", VERIF + "/deps") + tuple(roots):
        for d, dn, fs in sorted(os.walk(root)):
            dn.sort()
            dn[:] = [x for x in dn if x != "__pycache__"]
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


FLAVORS = {
    # cxx, compile flags, link flags
    "real": ("g++", ["-O2"], []),
    "fast": ("g++", ["-O3", "-march=native", "-DVT_FASTHASH"], ["-Wl,--wrap=_Z8shake128PhyPKhy", "-Wl,--wrap=_Z8shake256PhyPKhy"]),
}
SAN = ["-fsanitize=address", "-fsanitize=integer-divide-by-zero,bounds,null,vptr,return,unreachable,alignment,object-size",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
FLAVORS["asan"] = ("g++", ["-O1", "-g"] + SAN, SAN)
FLAVORS["asanfast"] = ("g++", ["-O1", "-g", "-DVT_FASTHASH"] + SAN, SAN + FLAVORS["fast"][2])


def compile_one(job):
    cxx, flags, src, obj = job
    lang = ["-x", "c++"] if src.endswith(".c") else []
    r = subprocess.run([cxx] + flags + lang + ["-c", src, "-o", obj], capture_output=True, text=True)
    return src, r.returncode, r.stderr


def build(name, harness, flavor="real", sources=None, defs=(), libs=(), link=(), incs=(), repo_flags=(), harness_flags=(),
          harness_flavor=None, plain=(), libwrap=False):
    """Compiles /repo's sources plus the harness files; returns the executable's path. Always keyed by content."""
    cxx, flags, lflags = FLAVORS[flavor]
    if sources is None:
        sources = repo_sources()
    harness = [h if os.path.isabs(h) else os.path.join(VERIF, h) for h in harness]
    key = tree_hash((name, flavor, sources, harness, defs, libs, link, incs, repo_flags, harness_flags, harness_flavor, plain, libwrap, flags, lflags),
                    [h for h in harness if not h.startswith(REPO)])
    d = os.path.join(BUILD, f"{name}-{flavor}-{key}")
    exe = os.path.join(d, "check")
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(BUILD, f"{name}-{flavor}-*")):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    inc = []
    for i in list(incs) + [VERIF + "/lib", VERIF + "/deps"] + [os.path.join(REPO, i) for i in INCLUDES]:
        inc += ["-I", i]
    base = ["-std=c++17", "-pthread", "-w", "-g1"] + inc + list(defs)
    jobs = []
    for n, s in enumerate(sources):
        jobs.append((cxx, base + flags + list(repo_flags), s, os.path.join(d, f"r{n}_{os.path.basename(s)}.o")))
    hf = FLAVORS[harness_flavor][1] if harness_flavor else flags
    for n, s in enumerate(harness + [os.path.join(VERIF, f) for f in plain] + [VERIF + "/lib/support.cpp"]):
        jobs.append((cxx, base + hf + (list(harness_flags) if s in harness else []), s, os.path.join(d, f"h{n}_{os.path.basename(s)}.o")))
    with ThreadPoolExecutor(JOBS) as ex:
        for src, rc, err in ex.map(compile_one, jobs):
            if rc:
                raise CheckError(f"cannot compile {src}:\n{err[-3000:]}")
    link = list(link)
    objs = [j[3] for j in jobs]
    if libwrap:
        objs.append(library_trampolines(d, objs, link))
    r = subprocess.run([cxx, "-pthread"] + lflags + objs + ["-o", exe + ".tmp"] + list(link) + list(libs),
                       capture_output=True, text=True)
    if r.returncode:
        raise CheckError(f"cannot link {name}:\n{r.stderr[-3000:]}")
    os.rename(exe + ".tmp", exe)
    return exe


def library_trampolines(d, objs, link):
    """The C++ library is not instrumented: every call of a string or stream function in it reports its object first."""
    r = subprocess.run(["nm", "-u", "--format=posix"] + objs, capture_output=True, text=True)
    names = sorted({l.split()[0] for l in r.stdout.splitlines() if re.match(
        r"_ZNK?St7__cxx1112basic_stringIc|_ZNK?St7__cxx11\d+basic_[io]?string(stream|buf)Ic|_ZNK?St\d+basic_(ios|[io]stream|iostream)Ic|_ZN[KS]*[io](ls|rs|\d)|_ZSt(ls|rs)I|_ZSt\d+__ostream_insert|_ZStlsSt|_ZSt7getline", l)})
    names = [n for n in names if "9_M_createE" not in n and "_Alloc_hider" not in n]
    o = [".intel_syntax noprefix", ".text"]
    for n in names:
        kind = (0 if n.startswith("_ZNK") else 1) + (2 if "12basic_stringIc" in n and n.startswith("_ZN") else 0)
        reg = "rsi" if re.search(r"E3strEv$|E6substrE", n) else "rdi"
        regs = ["rdi", "rsi", "rdx", "rcx", "r8", "r9", "rax", "r10"]
        o += [f".globl __wrap_{n}", f"__wrap_{n}:", "push rbp", "mov rbp, rsp"] + ["push " + x for x in regs] + ["sub rsp, 128"]
        o += [f"movups [rbp-{192 - 16 * i}], xmm{i}" for i in range(8)] + [f"mov rdi, {reg}", f"mov esi, {kind}", "and rsp, -16", "call vt_library_access"]
        o += [f"movups xmm{i}, [rbp-{192 - 16 * i}]" for i in range(8)] + [f"mov {x}, [rbp-{8 * (i + 1)}]" for i, x in enumerate(regs)] + ["leave", f"jmp __real_{n}"]
        link.append(f"-Wl,--wrap={n}")
    o.append('.section .note.GNU-stack,"",@progbits\n')
    src, obj = os.path.join(d, "trampolines.s"), os.path.join(d, "trampolines.o")
    with open(src, "w") as f:
        f.write("\n".join(o))
    r = subprocess.run(["g++", "-c", src, "-o", obj], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("cannot assemble the library trampolines:\n" + r.stderr[-2000:])
    return obj


def build_rust():
    """Builds /repo's Rust library with the C interface in rust/ffi; returns the static library."""
    files = sorted(glob.glob(VERIF + "/rust/**/*.rs", recursive=True) + glob.glob(VERIF + "/rust/**/*.toml", recursive=True)
                   + glob.glob(VERIF + "/rust/*.lock"))
    key = tree_hash("rust", files)
    d = os.path.join(BUILD, "rust-" + key)
    lib = os.path.join(d, "librsffi.a")
    if os.path.exists(lib):
        return lib
    for old in glob.glob(os.path.join(BUILD, "rust-*")):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d + "/qrllib", exist_ok=True)
    os.makedirs(d + "/ffi", exist_ok=True)
    for n in ("qrllib", "ffi"):
        with open(f"{VERIF}/rust/{n}.toml.in") as f:
            t = f.read().replace("@REPO@", REPO).replace("@VERIF@", VERIF)
        with open(f"{d}/{n}/Cargo.toml", "w") as f:
            f.write(t)
    shutil.copy(VERIF + "/rust/Cargo.lock", d + "/ffi/Cargo.lock")
    e = dict(os.environ, CARGO_TARGET_DIR=d + "/target", CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
    r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=d + "/ffi", env=e, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("cannot build the Rust library:\n" + r.stderr[-3000:])
    shutil.copy(d + "/target/release/librsffi.a", lib)
    shutil.rmtree(d + "/target", ignore_errors=True)
    return lib


ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98"}


def run_harness(exe, tier, limit=150, args=(), env=None, only=None):
    """Runs all shards; returns the list of result records."""
    out = os.path.join(os.path.dirname(exe), "out-%d-%d" % (os.getpid(), time.monotonic_ns()))
    os.makedirs(out, exist_ok=True)
    e = dict(os.environ)
    e.update(ENV)
    e.update(env or {})
    cmd = [exe, "--tier", tier, "--out", out, "--jobs", str(JOBS), "--limit", str(limit), "--seed", str(SEED)] + list(args)
    if only:
        cmd += ["--shard", only]
    r = subprocess.run(cmd, env=e, capture_output=True, text=True)
    recs = []
    p = os.path.join(out, "results.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                recs.append(json.loads(line))
    shutil.rmtree(out, ignore_errors=True)
    if r.returncode != 0:
        raise CheckError(f"harness {exe} exited {r.returncode}: {r.stderr[-2000:]}")
    if not recs:
        raise CheckError(f"harness {exe} produced no results")
    return recs


class Result:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.tot = dict(states=0, transitions=0, evals=0, distinct=0, traces=0, faults=0)
        self.extra, self.samples, self.fails = {}, [], []
        self.capped, self.shards, self.t0 = False, 0, time.time()
        self.part_wall = {}
        self.dist = {}
        self.hung = False

    def add(self, recs, part, exe=None, rerun=None):
        """Aggregates records; each failing shard is re-run before it counts."""
        confirmed = 0
        for r in recs:
            self.shards += 1
            if "died" in r or r.get("fails"):
                if confirmed < 3 and rerun is not None:
                    long = "died" in r and r["died"] == "timeout"
                    killed = "died" in r and r["died"] == "crash: signal 9"
                    for attempt in range(1 if long else 3):
                        rr = rerun(r["shard"], long)
                        if "died" in rr or rr.get("fails"):
                            r = rr
                            confirmed += 1
                            if rr.get("died") == "timeout":
                                self.hung, rerun = True, None
                            break
                    else:
                        if long or killed:   # slow or crowded machine: the shard finishes when run alone
                            r = rr
                        else:   # really observed, so it counts; say that it depends on something outside the inputs
                            note = " (observed once, not on 3 re-runs: the outcome is not a function of the inputs)"
                            if "died" in r:
                                r["died"] += note
                            else:
                                r["fails"][0]["msg"] += note
                            confirmed += 1
            if "died" in r:
                self.hung |= r["died"] == "timeout"
                self.fails.append(dict(part=part, shard=r["shard"], key="", msg=r["died"] + " | " + r.get("log", "")[:800], case=r.get("case", "")))
                continue
            for k in self.tot:
                self.tot[k] += r[k]
            self.capped |= r["capped"]
            g = part.split("-")[0]   # builds of one harness enumerate overlapping cases: count the largest, not the sum
            self.dist.setdefault(g, {}).setdefault(part, 0)
            self.dist[g][part] += r["distinct"]
            for k, v in r["extra"].items():
                self.extra[k] = self.extra.get(k, 0) + v
            if r["samples"] and len(self.samples) < 6:
                self.samples.append(f"[{r['shard']}] {r['samples'][0]}")
            for f in r["fails"]:
                self.fails.append(dict(part=part, shard=r["shard"], key=f["key"], msg=f["msg"], case=f["case"]))

    def run(self, exe, part, limit=150, args=(), env=None, longlimit=None):
        t = time.time()
        if self.hung:       # established already: the remaining parts would only wait for it again
            return
        recs = run_harness(exe, self.tier, limit, list(args) + ["--stop-on-hang"], env)

        def rerun(shard, long):
            return run_harness(exe, self.tier, (longlimit or limit) if long else limit, args, env, only=shard)[0]
        if any("stopped" in r for r in recs):
            hung = next(r for r in recs if r.get("died") == "timeout")
            again = rerun(hung["shard"], True)
            if "died" in again or again.get("fails"):
                recs, rerun = [again], None
            else:           # only slow: explore everything after all
                recs = run_harness(exe, self.tier, limit, args, env)
        if os.environ.get("VT_VERBOSE"):
            for r in sorted(recs, key=lambda r: -r.get("wall", 1e9))[:12]:
                print("   ", part, r["shard"], r.get("wall"), r.get("died", ""), flush=True)
        self.add(recs, part, exe, rerun)
        self.part_wall[part] = round(time.time() - t, 1)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def finish(res, level, rule, assumptions, replay_hint):
    """Writes evidence and replay, prints the verdict, returns the exit status."""
    prop, tier = res.prop, res.tier
    known = [k for k in known_findings()["findings"] if k["property"] == prop]
    res.tot["distinct"] = sum(max(d.values()) for d in res.dist.values())
    viol, seen = [], []
    for f in res.fails:
        m = next((k for k in known if f["key"] and f["key"] == k["key"]), None)
        (seen.append((m, f)) if m else viol.append(f))
    cov = {"samples": res.samples or ["(none)"], "shards": res.shards, "exhaustive": not res.capped, "rule": rule}
    if level == "model_checking":
        cov.update(states=res.tot["states"], transitions=res.tot["transitions"], traces_validated_against_impl=res.tot["traces"])
        if res.tot["evals"]:
            cov.update(evaluations=res.tot["evals"], distinct_nontrivial=res.tot["distinct"])
    else:
        cov.update(evaluations=res.tot["evals"], distinct_nontrivial=res.tot["distinct"])
        if res.tot["states"]:
            cov.update(states=res.tot["states"], transitions=res.tot["transitions"])
    if res.tot["faults"]:
        cov["faults_injected"] = res.tot["faults"]
    for k, v in sorted(res.extra.items()):
        cov[k] = v
    cov["part_wall_s"] = res.part_wall
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": level, "coverage": cov,
          "wall_s": round(time.time() - res.t0, 2), "violations": len(viol), "assumptions": assumptions}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if any(m is k for m, _ in seen):
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
    if viol:
        rp = os.path.join(VERIF, "evidence", f"{prop}.replay.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": SEED, "how": replay_hint, "violations": viol[:20]}, f, indent=1)
        v = viol[0]
        print(f"  part={v['part']} shard={v['shard']}\n  case: {v['case']}\n  {v['msg'][:1500]}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"OK property={prop} tier={tier} " + " ".join(f"{k}={v}" for k, v in res.tot.items() if v) +
          f" shards={res.shards} wall={ev['wall_s']}s")
    return 0
