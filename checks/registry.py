"""What each check builds and runs."""
import vt

MC, EX, FE = "model_checking", "exploration", "fault_enumeration"
P = {}


TECH = {MC: "explicit-state exploration of the real implementation against a reference model",
        EX: "bounded exhaustive enumeration on the real implementation against a reference model",
        FE: "exhaustive fault enumeration on the real implementation"}


def prop(pid, level, rule, assumptions, parts, technique=None):
    P[pid] = dict(level=level, rule=rule, assumptions=assumptions, parts=parts, technique=technique or TECH[level])


def harness(src, flavor, limit=150, **kw):
    """A compiled harness linked with the code under test."""
    runkw = {k: kw.pop(k) for k in ("args", "env", "longlimit") if k in kw}
    name = kw.pop("name", src.split(".")[0])
    label = kw.pop("label", f"{name}-{flavor}")

    rust = kw.pop("rust", False)

    def build():
        k = dict(kw)
        if rust:
            k["libs"] = [vt.build_rust(), "-lpthread", "-ldl"] + list(k.get("libs", ()))
        return vt.build(name, ["checks/" + src], flavor, **k)

    def run(res):
        res.run(build(), label, limit if res.tier == "quick" else limit * 10, **runkw)
    return dict(build=build, run=run, label=label)


MODEL = "The reference model in lib/ref.hpp (independent FIPS 202 / FIPS 180-4 / XMSS code) is correct."
FASTNOTE = ("Deep explorations replace the SHAKE/SHA-256 primitives by a cheap keyed mixing function in both the code under test and the "
            "model; everything above the primitive is the real code, and the same walks run on the real primitives at smaller depth.")

RUSTNOTE = "The Rust library is built from /repo with stand-ins for the two pqcrypto crates, which are not available offline."


def rust_part(pid):
    return harness("rmore.cpp", "real", rust=True, env={"VT_SECTION": pid}, label=f"{pid.lower()}-rust")


prop("C01", MC, "Every (signer kind, hash, w, height, index) state in the lattice is visited by walking the real signer; every signature is verified "
     "by the real verifier with the same parameter; message lengths enumerated.", [FASTNOTE, RUSTNOTE],
     [harness("c01.cpp", "real"), harness("c01.cpp", "fast"), rust_part("C01")])

prop("C02", MC, "States are (signer kind, index, last leaf used); every operation sequence up to the depth bound and every (index, target, sign, sign) "
     "transition of the index graph runs on the real signer and is compared with the index model and the full-tree signature model.",
     [MODEL, FASTNOTE, RUSTNOTE], [harness("c02.cpp", "real"), harness("c02.cpp", "fast", limit=200), rust_part("C02")])

prop("C03", MC, "States are traversal histories: every subset of the leaves of a 16-leaf tree signed with the rest jumped over, every pair of jumps, "
     "every stride; each signature issued is compared byte for byte with the one of a full-tree model.",
     [MODEL, FASTNOTE, RUSTNOTE], [harness("c03.cpp", "real"), harness("c03.cpp", "fast", limit=200), rust_part("C03")])

prop("C04", EX, "Every enumerated change (single bits of signature, message and key; byte values at structural positions; truncations, extensions, block "
     "swaps, recombined signatures, crossed keys and parameters) of a valid triple is verified by the real code; each change is distinct from the valid "
     "triple and from the others.", [FASTNOTE, RUSTNOTE], [harness("c04.cpp", "real"), harness("c04.cpp", "fast"), rust_part("C04")])

prop("C05", EX, "Inputs are enumerated by length, descriptor, parameter and memory history; each verdict is compared with the reference verdict, under the "
     "address sanitizer (asan parts) or with poisoned stack and heap (plain parts).", [MODEL, FASTNOTE],
     [harness("c05.cpp", "asanfast", limit=250), harness("c05.cpp", "fast", env={"MALLOC_PERTURB_": "90"}), harness("c05.cpp", "real", env={"MALLOC_PERTURB_": "165"})])

prop("C06", EX, "Every key part, every signature of whole bounded trees, single-bit variations of the seed, and verification on synthetic trees of every height the "
     "key format can declare, compared with the reference construction; each case is a distinct (configuration, seed, index, message).", [MODEL, FASTNOTE, RUSTNOTE],
     [harness("c06.cpp", "real"), harness("c06.cpp", "fast"), rust_part("C06")])


prop("C07", EX, "Seeds and configurations are enumerated: every byte value at every extended-seed position through both text encodings; every representable "
     "configuration; signers rebuilt over every route and compared in every observable. Distinct by the extended seed and route.", [FASTNOTE, RUSTNOTE],
     [harness("c07.cpp", "asan"), harness("c07.cpp", "fast"), rust_part("C07")])

prop("C08", EX, "The whole input space: all 2^24 descriptors, all field combinations, all descriptor prefixes of extended seeds and keys, all other lengths up to 400; "
     "C++ and Rust.", [RUSTNOTE], [harness("c08.cpp", "real", rust=True)])

prop("C09", EX, "All 2^24 three-byte groups, every word at every position, all word counts up to the bound with every separator layout, near-miss words; compared with the "
     "12-bit packing model; distinct by the text or bytes.", [RUSTNOTE], [harness("c09.cpp", "asan", rust=True)])

prop("C10", EX, "All byte pairs, all two-character strings at every parity position, all lengths and wrap widths up to the bound, compared with a direct model; distinct by input; C++ and Rust.",
     [RUSTNOTE], [harness("c10.cpp", "asan", rust=True)])

prop("C11", EX, "For each key of a family: every single-byte change of its address, every swap and pair of changes, every length; every byte value at every key position; all "
     "65536 descriptors; compared with an independent SHA2-256 model; C++ and Rust.", [MODEL, RUSTNOTE], [harness("c11.cpp", "asan", rust=True)])

prop("C12", EX, "Every input length and output length up to several blocks of each hash, every input position, long and over-4-GiB inputs, every iteration count up to the bound; raw, "
     "vector and Rust functions; compared with independent FIPS 202 / FIPS 180-4 code that is itself checked against published digests; distinct by (function, input, output length).",
     [RUSTNOTE, "picosha2 is not available offline: the SHA2-256 compression behind the C++ wrappers is a stand-in; what is checked for SHA2-256 is the library's use of it."],
     [harness("c12.cpp", "real", rust=True, env={"VT_MEM_GB": "14"}, defs=('-DVT_HUGE128="a316b0d4415ec0f7be61a6844a6afada45950fdafb243d5fdfc21108cd765414"',
                                                  '-DVT_HUGE256="66ae4c4d8587d3481e8c53dd9ddf288041ea2495ad7f4cb1c6f49dbb35fe11f7"'))])

prop("C13", EX, "For each parameter: every value of every digit, every reachable checksum sum in several shapes, and all pairs of sums; the positions are read back from real "
     "signatures with a table of every chain value; every other parameter up to 70000 must be refused; distinct by digest.", [MODEL, FASTNOTE, RUSTNOTE],
     [harness("c13.cpp", "real"), harness("c13.cpp", "fast"), rust_part("C13")])

prop("C19", EX, "All seed lengths up to the bound, shifts at all byte boundaries, positions past 2^24, compared entry by entry with the definition; distinct by (seed, shift, count).",
     [MODEL, FASTNOTE, RUSTNOTE], [harness("c19.cpp", "real", rust=True), harness("c19.cpp", "fast", rust=True)])

prop("C31", EX, "Inputs are enumerated by signature length, key length, descriptor, Winternitz parameter, message length and preceding call; each verdict of the Rust verifier is compared with the "
     "reference verdict and panics are violations; distinct by input.", [MODEL, RUSTNOTE], [harness("c31.cpp", "real", rust=True)])

prop("C20", EX, "Every signature size up to far beyond the largest valid one and around every power of two; all Winternitz parameters up to 70000; every index of real trees.",
     [FASTNOTE, RUSTNOTE], [harness("c20.cpp", "real", rust=True), harness("c20.cpp", "fast", rust=True)])

prop("C29", EX, "All (stored index, requested index) pairs up to the bound and around every byte and word boundary, every byte pair at every index byte; whole small trees signed at the "
     "low level; index carries in trees of height 18, 26 and 30.", [MODEL, FASTNOTE, RUSTNOTE], [harness("c29.cpp", "real", rust=True), harness("c29.cpp", "fast", rust=True)])

PQNOTE = ("The Dilithium and Kyber submodules are not available offline: the wrappers run over recording stand-ins with the reference's interface, buffer use and "
          "return conventions.")


def pq_harness(src, sub, **kw):
    h = harness(src, "asan", rust=True, **kw)
    base = h["build"]

    def sources():
        import glob
        return vt.repo_sources() + sorted(glob.glob(f"{vt.REPO}/src/{sub}/*.cpp")) + [vt.VERIF + "/lib/pq.cpp"]

    def run(res):
        exe = vt.build(src.split(".")[0], ["checks/" + src], "asan", sources=sources(), libs=[vt.build_rust(), "-lpthread", "-ldl"])
        res.run(exe, h["label"], 150 if res.tier == "quick" else 1500)
    return dict(build=base, run=run, label=h["label"])


prop("C21", EX, "Every length of keys and signed messages up to beyond the valid one, message lengths, single-byte changes, every class of reference verdict, object histories; each "
     "call seen by the recording reference is compared with the arguments given; under the address sanitizer.", [PQNOTE, RUSTNOTE], [pq_harness("c21.cpp", "dilithium")])

prop("C22", EX, "All exchange histories of two parties up to the depth, every length of keys and ciphertexts up to beyond the valid one, every class of reference verdict; each call seen "
     "by the recording reference is compared with the arguments given; under the address sanitizer.", [PQNOTE, RUSTNOTE], [pq_harness("c22.cpp", "kyber")])

prop("C17", FE, "Every sequence of source answers (full, partial, interrupted, end, error) up to the depth, for each seed size, with each continuation; every number of bytes delivered "
     "before the end; open failures; extra-entropy strings; request histories. The scripted source replaces fopen/open/read/getrandom/getentropy for the real C++ and Rust code; distinct by script.",
     [RUSTNOTE], [harness("c17.cpp", "real", rust=True, link=("-rdynamic",))])

def node_part(js, label, *paths):
    """Enumeration in JavaScript: prints one result record."""
    import json, subprocess

    def run(res):
        import time
        t = time.time()
        try:
            r = subprocess.run(["node", f"{vt.VERIF}/checks/{js}"] + [vt.REPO + p for p in paths] + [res.tier], capture_output=True, text=True,
                               timeout=400 if res.tier == "quick" else 7200)
        except subprocess.TimeoutExpired:
            return res.add([dict(shard=js, died="timeout", case="")], label)
        if r.returncode or not r.stdout.strip():
            raise vt.CheckError(f"{js} failed: {r.stderr[-2000:]}")
        res.add([json.loads(r.stdout.strip().splitlines()[-1])], label)
        res.part_wall[label] = round(time.time() - t, 1)
    return dict(run=run, label=label)


prop("C18", EX, "Every combination of what globalThis, self and window may hold; every size up to the bound and every kind of non-size; every position of the only non-zero byte; "
     "each outcome compared with the log of the platform generator; distinct by (environment, generator behaviour, size).", [],
     [node_part("c18.js", "c18-node", "/src/jswrapper/getRandomSeed.js")])

TSANLINK = tuple(f"-Wl,--wrap={s}" for s in ("memcpy", "memmove", "memset", "memcmp", "malloc", "calloc", "__cxa_allocate_exception")) + ("-rdynamic", "-ldl")
LIGHT = ("-Wl,--wrap=_Z19xmssfast_Genkeypair13eHashFunctionP11xmss_paramsPhS2_P9bds_stateS2_",)
POOLNOTE = ("In the schedule exploration, generating a key pair is a cheap function of the seed (the rest of the pool and signer construction is the real code); weak memory "
            "effects beyond data races are not explored.")


def sched_harness(src, name, defs=(), light=True, flavor="fast", **kw):
    return harness(src, flavor, name=name, defs=defs, repo_flags=("-fsanitize=thread", "-O1"), harness_flags=("-fsanitize=thread", "-O1"),
                   plain=("lib/sched.cpp",) + (("lib/pooltree.cpp",) if light else ()), link=TSANLINK + (LIGHT if light else ()), libwrap=True, **kw)


prop("C14", MC, "Every schedule of 1-3 clients and the background builders up to the preemption bound, for every program of pool operations up to the length bound, by re-execution of the "
     "real pool under a cooperative scheduler with a happens-before race detector; states are scheduling points; a run is one complete schedule, all distinct by construction.",
     [POOLNOTE, FASTNOTE], [sched_harness("c14.cpp", "c14", label="c14-schedules"), harness("c14r.cpp", "real"), harness("c14r.cpp", "fast")])

prop("C15", FE, "Every single and double failure position among thread creations and tree generations, and every failing allocation of client and builder threads, crossed with every "
     "schedule of the clients and builders (partial-order reduced); a run is one failure position and one schedule, all distinct by construction.",
     [POOLNOTE], [sched_harness("c14.cpp", "c15", defs=("-DPOOL_FAULTS",), label="c15-schedules")])




prop("C16", MC, "All ordered pairs of operations of an alphabet covering every public operation, each in a fresh process, in two unsynchronised threads under a happens-before race "
     "detector (all inequivalent schedules); all interleavings of bounded operation sequences of two objects in one thread; distinct by pair and by interleaving.",
     [FASTNOTE, RUSTNOTE], [sched_harness("c16.cpp", "c16", light=False, label="c16-threads"),
      sched_harness("c16.cpp", "c16", light=False, flavor="real", defs=("-DHASHES_ONLY",), label="c16h-threads"), harness("c16i.cpp", "fast"), harness("c16i.cpp", "real"), rust_part("C16")])

prop("C23", MC, "Both implementations run in lock step: every operation sequence to the depth, every (index, target) pair of small trees, whole trees, message lengths across the sponge "
     "blocks; every observable compared after every step; verdicts compared on tampered triples and on synthetic trees of every height.", [RUSTNOTE],
     [harness("c23.cpp", "real", rust=True)])


prop("C24", EX, "The bounded exhaustive input families of the codec, hash, descriptor, address and chain-seed checks, given to both implementations and compared: same bytes, or both "
     "refuse and Rust does not panic; distinct by (function, input).", [RUSTNOTE], [harness("c24.cpp", "real", rust=True)])


prop("C25", EX, "Every seed length, height, hash-function code, Winternitz parameter and extended-seed prefix of the bounded ranges, for each kind of signer and both implementations; created "
     "signers are compared with the model, refusals must be invalid-argument errors; valid trees too tall to build count as created when no error appears promptly.",
     [FASTNOTE, RUSTNOTE], [harness("c25.cpp", "asanfast"), harness("c25.cpp", "real", rust=True, defs=("-DWITH_RUST",), name="c25r")])


prop("C26", MC, "States are (live/moved-from, key, index) of two signers; every sequence of copy, assign, move, swap, destroy, sign and jump operations up to the depth on the real objects, and "
     "every way of copying at every index followed by use in several orders; all observables compared with the model; under the address sanitizer.", [MODEL, FASTNOTE],
     [harness("c26.cpp", "asanfast", limit=250), harness("c26.cpp", "fast", limit=250, env={"MALLOC_PERTURB_": "90"})])

WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc"]
prop("C27", FE, "Every allocation (counted in an unfaulted run) of construction, signing, index changes, getters, copying, verification and encoding fails once, and from there on, at every "
     "index of small trees; each run then signs to the end of the tree against the model. Distinct by operation, index, position and mode.",
     [MODEL, FASTNOTE, "SHA2-256 positions assume that the absent PicoSHA2 allocates once per hash, as its input buffer does."],
     [harness("c27.cpp", "fast", limit=250, link=WRAP), harness("c27.cpp", "fast", limit=300, link=WRAP, name="c27sha", defs=["-DVT_SHA_ALLOC"], label="c27-sha-allocating")])


def js_harness():
    def sources():
        import glob
        return vt.repo_sources() + sorted(f for d in ("dilithium", "kyber", "jswrapper") for f in glob.glob(f"{vt.REPO}/src/{d}/*.cpp")) + [vt.VERIF + "/lib/pq.cpp"]

    def build():
        return vt.build("c28", ["checks/c28.cpp"], "asanfast", sources=sources(), incs=[vt.VERIF + "/deps/emscripten"])
    return dict(build=build, label="c28-asanfast", run=lambda res: res.run(build(), "c28-asanfast", 200 if res.tier == "quick" else 2000))


prop("C28", EX, "Every export registered with embind (through a recording stand-in for its registration interface) is called by its JavaScript name: texts of every length up to beyond the legal "
     "ones, all two-byte descriptors, characters, operation sequences; each outcome compared with the library's, under the address sanitizer. Distinct by export and arguments.",
     [PQNOTE, FASTNOTE, "embind's own conversions are those of the stand-in in deps/emscripten."], [js_harness()])


prop("C30", MC, "States are (configuration, trees claimed) of the Rust pool; every configuration is walked, each tree's seed, public key and first signature, the index and availability are "
     "compared with a counter and the model; unbuildable heights in every configuration.", [RUSTNOTE], [harness("c30.cpp", "real", rust=True)])


def setup():
    """Checks that the tools are there; every check builds what it needs itself."""
    import shutil
    missing = [t for t in ("g++", "cargo", "node", "python3") if not shutil.which(t)]
    for t in missing:
        print("missing tool:", t)
    return 1 if missing else 0


def run(pid, tier):
    p = P[pid]
    res = vt.Result(pid, tier)
    for part in p["parts"]:
        part["run"](res)
    return vt.finish(res, p["level"], p["rule"], p["assumptions"],
                     f"python3 {vt.VERIF}/run.py {pid} {tier}   (each violation names the part, the shard and the exact case)")
