#!/usr/bin/env python3
"""Builds one property harness from /repo's current working tree and runs it.

  check.py C05 [quick|thorough]        decide the property
  check.py C05 --replay FILE           run a saved counterexample
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: could not be decided.
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time, hashlib, signal
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
PBT = os.path.join(ROOT, "pbt")
JNI_PROPS = {"C18", "C22", "C30"}    # harness linked with the JNI sources
JAVA_PROPS = {"C24", "C25", "C27"}   # harness uses a Java VM with the library's Java classes and its shared JNI library
JAVA_HOME = "/usr/lib/jvm/java-17-openjdk-amd64"
JDK = JAVA_HOME + "/include"
JAVA = os.path.join(ROOT, "java")
VARIANTS = {
    # memory errors, integer division by zero
    "asan": ["g++", "-O1", "-g1", "-fsanitize=address", "-fsanitize=integer-divide-by-zero", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    # data races (C26)
    "tsan": ["g++", "-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    # as the library is compiled for use
    "o3": ["g++", "-O3", "-g1"],
    "fuzz": ["clang++", "-O1", "-g1", "-fsanitize=fuzzer,address", "-fsanitize=integer-divide-by-zero", "-fno-sanitize-recover=all", "-DPBT_FUZZ"],
}
THREAD_PROPS = {"C26"}        # the calls of a case run in several threads: ThreadSanitizer instead of AddressSanitizer
FAULT_PROPS = {"C29", "C30"}         # allocations fail on request: the engine's operator new replaces the sanitizer's
SHARE = {"asan": 0.25, "tsan": 0.25, "o3": 1.0}
ASAN_OPTIONS = "detect_leaks=0:allocator_may_return_null=0:max_malloc_fill_size=1048576:malloc_fill_byte=157:handle_abort=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=77:symbolize=1:max_allocation_size_mb=6000"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(prop, variant, out):
    """compile harness, engine and library sources in parallel, link"""
    flags = VARIANTS[variant]
    obj = os.path.join(out, variant)
    os.makedirs(obj, exist_ok=True)
    inc = ["-I" + PBT, "-I" + os.path.join(REPO, "boofcpp/src/boofcv"), "-I" + os.path.join(REPO, "boofcpp/src")]
    jobs = []
    low = prop.lower()
    for src in sorted(glob.glob(os.path.join(PBT, low + "*.cpp"))) + [os.path.join(PBT, "engine.cpp")]:
        jobs.append((src, ["-std=gnu++14"]))
    for src in sorted(glob.glob(os.path.join(REPO, "boofcpp/src/boofcv/*.cpp"))):
        jobs.append((src, ["-std=gnu++11", "-w"]))
    if prop in JAVA_PROPS:
        err = build_java(out)
        if err:
            return None, err
        inc += ["-I" + JDK, "-I" + JDK + "/linux"]
    if prop in THREAD_PROPS:
        flags = flags + ["-pthread"]
    if prop in FAULT_PROPS:
        flags = flags + ["-DPBT_FAULTS"]
    if prop in JNI_PROPS:
        inc += ["-I" + JDK, "-I" + JDK + "/linux", "-I" + os.path.join(REPO, "boofcpp-jni/src/main/cpp")]
        for src in sorted(glob.glob(os.path.join(REPO, "boofcpp-jni/src/main/cpp/*.cpp"))):
            jobs.append((src, ["-std=gnu++11", "-w"]))

    def one(job):
        src, extra = job
        o = os.path.join(obj, os.path.basename(os.path.dirname(src)) + "_" + os.path.basename(src) + ".o")
        r = sh(flags + extra + inc + ["-w", "-c", src, "-o", o])
        return o, r.returncode, r.stdout

    with ThreadPoolExecutor(max_workers=4) as ex:
        res = list(ex.map(one, jobs))
    bad = [(src, text) for (src, _), (o, rc, text) in zip(jobs, res) if rc]
    if bad:
        # the library compiles but a use of its documented operations does not
        user = all(src.startswith(PBT) and ": error: " in text for src, text in bad)
        return None, (UNUSABLE if user else "") + bad[0][1][:4000]
    exe = os.path.join(obj, "check")
    r = sh(flags + [o for o, _, _ in res] + ["-o", exe, "-ldl"])
    return (exe, "") if r.returncode == 0 else (None, r.stdout[-4000:])


def build_java(out):
    """the library's Java classes against stand-ins for the BoofCV classes they use, and the shared JNI library as CMake builds it"""
    cp, lib = os.path.join(out, "classes"), os.path.join(out, "jlib")
    os.environ.update(PBT_JAVA_CP=cp, PBT_JAVA_LIB=lib, PBT_LIBJVM=JAVA_HOME + "/lib/server/libjvm.so", PBT_JAVA=JAVA_HOME + "/bin/java", PBT_SCRATCH=os.path.join(out, "scratch"))
    os.makedirs(os.path.join(out, "scratch"), exist_ok=True)
    os.makedirs(cp, exist_ok=True)
    os.makedirs(lib, exist_ok=True)
    java = [f for d in (os.path.join(REPO, "boofcpp-jni/src/main/java"), JAVA) for f in sorted(glob.glob(d + "/**/*.java", recursive=True))]
    cmd = ["g++", "-O3", "-fPIC", "-shared", "-std=gnu++11", "-w", "-I" + JDK, "-I" + JDK + "/linux", "-I" + os.path.join(REPO, "boofcpp/src/boofcv"), "-I" + os.path.join(REPO, "boofcpp-jni/src/main/cpp")]
    srcs = sorted(glob.glob(os.path.join(REPO, "boofcpp/src/boofcv/*.cpp")) + glob.glob(os.path.join(REPO, "boofcpp-jni/src/main/cpp/*.cpp")))
    jobs = [["javac", "-nowarn", "-Xlint:none", "-d", cp] + java]
    objs = []
    for s in srcs:
        objs.append(os.path.join(lib, os.path.basename(s) + ".o"))
        jobs.append([a for a in cmd if a != "-shared"] + ["-c", s, "-o", objs[-1]])
    with ThreadPoolExecutor(max_workers=6) as ex:
        res = list(ex.map(sh, jobs))
    res.append(sh(cmd + objs + ["-o", os.path.join(lib, "libJNIBoofCPP.so")]) if all(r.returncode == 0 for r in res) else res[0])
    res.append(sh(["g++", "-shared", "-fPIC", "-nostdlib", "-x", "c", "/dev/null", "-o", os.path.join(lib, "empty.so")]))
    for o in objs:
        if os.path.exists(o):
            os.unlink(o)
    return "\n".join(r.stdout[-3000:] for r in res if r.returncode)[:4000]


def env(prop=None):
    e = dict(os.environ)
    if prop and prop not in JAVA_PROPS:
        e["PBT_AS_MB"] = "8000"   # builds without a sanitizer: a runaway allocation fails instead of filling the machine
    e["ASAN_OPTIONS"] = ASAN_OPTIONS
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4"
    return e


def run_variant(exe, variant, prop, seed, out, cases_scale, procs, tcap, shrink):
    res = os.path.join(out, variant, "result.json")
    hashes = os.path.join(out, variant, "hashes")
    os.makedirs(hashes, exist_ok=True)
    replay = os.path.join(out, variant, "replay.txt")
    q = sh([exe, "--print-cases", "1"], env=env())
    base = int(q.stdout.strip() or "1000")
    cases = max(200, int(base * SHARE[variant] * cases_scale))
    cmd = [exe, "--seed", str(seed * 2 + (1 if variant == "o3" else 0)), "--cases", str(cases), "--procs", str(procs), "--time", str(tcap),
           "--shrink", str(shrink), "--out", res, "--replay-out", replay, "--build", variant, "--hashes", hashes,
           "--errfile", os.path.join(out, variant, "err.txt")]
    p = subprocess.Popen(cmd, env=env(prop), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        text, _ = p.communicate(timeout=tcap + shrink + 240)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        return {"result": 2, "message": "driver timed out", "evaluations": 0, "build": variant}
    try:
        with open(res) as f:
            d = json.load(f)
    except Exception as ex:
        return {"result": 2, "message": "driver ended with %s: %s %s" % (p.returncode, ex, text[-1500:]), "evaluations": 0, "build": variant}
    d["replay"] = replay
    return d


def fuzz(prop, seed, out, seconds):
    """coverage guided tier: same harness, bytes drive the choices"""
    exe, err = build(prop, "fuzz", out)
    if not exe:
        return {"result": 2, "message": "fuzz build failed: " + err}
    corpus = os.path.join(out, "fuzz", "corpus")
    art = os.path.join(out, "fuzz", "artifacts") + "/"
    os.makedirs(corpus, exist_ok=True)
    os.makedirs(art, exist_ok=True)
    import random
    rnd = random.Random(seed)
    for i in range(64):
        with open(os.path.join(corpus, "seed%d" % i), "wb") as f:
            f.write(bytes(rnd.randrange(256) for _ in range(rnd.choice([16, 64, 256, 1024]))))
    e = env()
    e["ASAN_OPTIONS"] = ASAN_OPTIONS.replace("handle_abort=0", "handle_abort=1") + ":alloc_dealloc_mismatch=0"   # libFuzzer's own
    procs = []
    for w in range(6):
        procs.append(subprocess.Popen([exe, "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % seconds, "-max_len=2048", "-len_control=20", "-timeout=25",
                                       "-rss_limit_mb=6000", "-malloc_limit_mb=6000", "-artifact_prefix=" + art + "w%d-" % w, "-reload=1", "-print_final_stats=1", corpus],
                                      env=e, stdout=open(os.path.join(out, "fuzz", "log%d" % w), "w"), stderr=subprocess.STDOUT, start_new_session=True))
    end = time.time() + seconds + 90
    for p in procs:
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
    units, cov = 0, 0
    for w in range(6):
        for l in open(os.path.join(out, "fuzz", "log%d" % w), errors="replace"):
            if l.startswith("stat::number_of_executed_units:"):
                units += int(l.split()[-1])
            if " cov: " in l:
                try:
                    cov = max(cov, int(l.split(" cov: ")[1].split()[0]))
                except Exception:
                    pass
    crashes = sorted(f for f in glob.glob(art + "*") if "slow-unit" not in f and "oom" not in os.path.basename(f))
    return {"result": 0, "executions": units, "coverage_edges": cov, "corpus": len(os.listdir(corpus)), "crashes": crashes}


def known_lines(prop):
    """known findings: lines 'finding: property=<id> match=<text> :: description'"""
    res = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("finding: property=%s " % prop):
                match, desc = l.split("match=", 1)[1].split(" :: ", 1)
                res.append((match.strip(), desc.strip()))
    return res


def save_replay(prop, src):
    d = os.path.join(ROOT, "build", "replays")
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, "%s-%s.txt" % (prop, hashlib.sha1(open(src, "rb").read()).hexdigest()[:10]))
    shutil.copy(src, dst)
    return dst


UNUSABLE = "The library compiles, but calling its public operations as its users do does not:\n"


def does_not_compile(prop, variant, out, err):
    """no case can be run: every use of the operation fails. The replay is any case of the harness"""
    src = os.path.join(out, "compile.txt")
    with open(src, "w") as f:
        f.write('property: %s\nbuild: %s\nseed: 0\nmessage: "does not compile"\ncase: ""\nchoices: 0\n' % (prop, variant) + "".join("| %s\n" % l for l in err.split("\n")))
    path = save_replay(prop, src)
    print("%s (%s build): %s" % (prop, variant, err))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def setup():
    """Nothing has to be prepared: checks build from source. Verifies that the tools needed are there."""
    for tool in ("g++", "clang++", "javac", "java"):
        if shutil.which(tool) is None:
            print("missing", tool)
            return 1
    if not os.path.isdir(JDK):
        print("missing", JDK)
        return 1
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    print("ready")
    return 0


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        return setup()
    tier = "quick"
    replay = None
    args = sys.argv[2:]
    if args and args[0] == "--replay":
        replay = args[1]
    elif args:
        tier = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    out = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(ROOT, "build"))
    try:
        if replay:
            variant = "o3"
            for l in open(replay):
                if l.startswith("build: "):
                    variant = l.split()[1]
            if variant == "fuzz":
                variant = "asan"
            exe, err = build(prop, variant, out)
            if not exe:
                print(err)
                return 1 if err.startswith(UNUSABLE) else 2
            r = sh([exe, "--replay", os.path.abspath(replay), "--errfile", os.path.join(out, "err.txt")], env=env(prop))
            print(r.stdout)
            return r.returncode
        variants = ("o3",) if prop in JAVA_PROPS else ("tsan", "o3") if prop in THREAD_PROPS else ("asan", "o3")   # a Java VM does not run under ASan
        with ThreadPoolExecutor(max_workers=2) as ex:
            builds = dict(zip(variants, ex.map(lambda v: build(prop, v, out), variants)))
        for v, (exe, err) in builds.items():
            if not exe:
                if err.startswith(UNUSABLE):
                    return does_not_compile(prop, v, out, err)
                print("could not build the %s harness of %s against %s\n%s" % (v, prop, REPO, err))
                return 2
        skipped = ""
        if "tsan" in variants and sh([builds["tsan"][0], "--print-cases", "1"], env=env()).returncode != 0:
            variants, skipped = ("o3",), "ThreadSanitizer binaries do not start on this machine: results compared only"
            print(skipped)
        tb = time.time() - t0
        if tier == "quick":
            scale, tcap, shrink = 5.0, 25, 30
        else:
            scale, tcap, shrink = 200.0, 330, 60
        with ThreadPoolExecutor(max_workers=2) as ex:
            results = list(ex.map(lambda v: run_variant(builds[v][0], v, prop, seed, out, scale, 8 // len(variants), tcap, shrink), variants))
        fz = None
        if tier == "thorough" and prop not in JAVA_PROPS | THREAD_PROPS and not any(r["result"] == 1 for r in results):
            fz = fuzz(prop, seed, out, 150)
            for c in fz.get("crashes", [])[:6]:
                r = sh([builds["asan"][0], "--bytes", c], env=env())
                lf = os.path.join(out, "fuzz", "choices.txt")
                with open(lf, "w") as f:
                    f.write(r.stdout)
                rp = os.path.join(out, "fuzz", "replay.txt")
                r = sh([builds["asan"][0], "--shrink-file", lf, "--replay-out", rp, "--build", "asan", "--errfile", os.path.join(out, "err.txt")], env=env(prop))
                if r.returncode == 1:
                    results.append({"result": 1, "message": r.stdout.strip(), "case": "", "build": "fuzz", "replay": rp, "evaluations": 0})
                    break
                fz["result"] = 2
                fz["message"] = "crash of the fuzzer did not reproduce: " + r.stdout[-500:]
        ev = sum(r.get("evaluations", 0) for r in results) + (fz or {}).get("executions", 0)
        dn = sum(r.get("distinct_nontrivial", 0) for r in results)
        viol = [r for r in results if r["result"] == 1]
        und = [r for r in results if r["result"] == 2]
        known = known_lines(prop)
        new = []
        printed = set()
        for r in viol:
            hit = next((k for k in known if k[0] in r["message"] + " " + r.get("case", "")), None)
            if hit:
                if hit not in printed:
                    print("KNOWN-FINDING: property=%s %s" % (prop, hit[1]))
                    printed.add(hit)
            else:
                new.append(r)
        cov = {
            "evaluations": ev,
            "distinct_nontrivial": dn,
            "rule": next((r["rule"] for r in results if r.get("rule")), "") + " Cases are counted once per distinct choice sequence, separately for the two builds (different seeds).",
            "samples": [s for r in results for s in r.get("samples", [])][:6] or [r.get("case", "") for r in viol] or ["none"],
            "per_build": {r["build"]: {k: r.get(k) for k in ("evaluations", "discarded", "nontrivial", "distinct_nontrivial", "planned", "explore_s", "classes")} for r in results},
            "build_s": round(tb, 2),
        }
        if skipped:
            cov["skipped"] = skipped
        if fz:
            cov["fuzzing"] = {k: fz.get(k) for k in ("executions", "coverage_edges", "corpus", "message") if k in fz}
        evidence = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration", "coverage": cov,
                    "assumptions": [a for a in (next((r.get("assumptions") for r in results if r.get("assumptions")), "") or "").split(" | ") if a],
                    "wall_s": round(time.time() - t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", ".%s.%d" % (prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, "evidence", prop + ".json"))
        for r in new:
            path = save_replay(prop, r["replay"])
            print("%s (%s build): %s\n%s" % (prop, r["build"], r["message"], r.get("case", "")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if new:
            return 1
        short = [r for r in results if r["result"] == 0 and r["evaluations"] < min(50 if prop == "C25" else 200, r.get("planned", 200))]
        if und or short or (fz and fz["result"] == 2):
            for r in und + ([fz] if fz and fz["result"] == 2 else []):
                print("undecided:", r.get("message"))
            for r in short:
                print("undecided: only %d cases ran" % r["evaluations"])
            return 2
        print("%s held on %d cases (%d distinct non-trivial), %.1f s" % (prop, ev, dn, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
