#!/usr/bin/env python3
"""Runs one check: builds the harness from /repo's working tree, explores, writes the evidence file.

usage: run.py ID [--tier quick|thorough] [--replay FILE] [--jobs N] [harness options...]
exit 0: the property held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FLBWT_REPO", "/repo")
CXX11 = ["-std=gnu++11"]
WRAP = ["-Wl," + ",".join("--wrap=" + x for x in "malloc free calloc realloc reallocarray posix_memalign aligned_alloc memalign strdup malloc_usable_size mmap munmap".split())]
VARIANTS = {
    # name: (compiler, flags for /repo's sources, flags for the harness, link flags)
    "plain": ("g++", ["-O2", "-g"], ["-O2", "-g"], WRAP),
    "bare": ("g++", ["-O2", "-g"], ["-O2", "-g"], []),
    "hook": ("g++", ["-O2", "-g", "-DFLBWT_VERIFY"], ["-O2", "-g", "-DFLBWT_VERIFY"], WRAP),
    "unopt": ("g++", ["-O0", "-g", "-DFLBWT_VERIFY"], ["-O2", "-g", "-DFLBWT_VERIFY"], []),
    # counts basic blocks; loops stay loops
    "steps": ("g++", ["-O1", "-g", "-DFLBWT_VERIFY", "-fsanitize-coverage=trace-pc", "-fno-tree-loop-distribute-patterns"], ["-O2", "-g", "-DFLBWT_VERIFY"], WRAP + ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp"]),
    "asan": ("g++", ["-O1", "-g", "-DFLBWT_VERIFY", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-O1", "-g", "-DFLBWT_VERIFY", "-fsanitize=address"], ["-fsanitize=address"]),
    # instrumented like for clang's thread sanitizer, linked with the scheduler of the harness instead of its run time
    "trace": ("clang++", ["-O1", "-g", "-DFLBWT_VERIFY", "-fsanitize=thread"], ["-O2", "-g", "-DFLBWT_VERIFY", "-Wno-misleading-indentation"],
              ["-Wl," + ",".join("--wrap=" + x for x in "malloc free calloc realloc fopen fopen64 freopen open rename remove unlink chdir srand rand setlocale fread fwrite fclose fflush fseek ftell setvbuf setbuf setbuffer pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort".split())]),
}
# builds of /repo's sources that C22 compares: (name, in the quick tier, command)
UB = "-fsanitize=undefined,float-divide-by-zero -fno-sanitize=vptr,function,pointer-overflow -fsanitize-minimal-runtime -fsanitize-recover=all"
MATRIX = [
    ("g++ -O0, as CMake builds by default", True, "g++ -std=gnu++11 -O0 -g"),
    ("clang++ -O1 with checks for undefined arithmetic", True, "clang++ -std=gnu++11 -O1 -g " + UB),
    ("g++ -O3, as CMake builds for release", True, "g++ -std=gnu++11 -O3"),
    ("g++ -O1, automatic variables filled with a pattern", True, "g++ -std=gnu++14 -O1 -ftrivial-auto-var-init=pattern"),
    ("g++ -O2, automatic variables zeroed, C++17", True, "g++ -std=gnu++17 -O2 -ftrivial-auto-var-init=zero"),
    ("g++ -O3 for this processor, loops unrolled", True, "g++ -std=gnu++11 -O3 -march=native -funroll-loops"),
    ("g++ -O2, link-time optimisation", False, "g++ -std=gnu++11 -O2 -flto"),
    ("g++ -Os, no assertions, unsigned char", True, "g++ -std=gnu++11 -Os -DNDEBUG -funsigned-char"),
    ("g++ -Ofast, wrapping arithmetic, no strict aliasing", False, "g++ -std=gnu++11 -Ofast -fwrapv -fno-strict-aliasing"),
    ("g++ -O2, hardened library, C++20", True, "g++ -std=gnu++20 -O2 -D_GLIBCXX_ASSERTIONS -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=3 -fstack-protector-all"),
    ("g++ -Og, debug containers", False, "g++ -std=gnu++11 -Og -D_GLIBCXX_DEBUG"),
    ("g++ -O2, trapping arithmetic", False, "g++ -std=gnu++11 -O2 -ftrapv"),
    ("clang++ -O0, C++14", False, "clang++ -std=gnu++14 -O0"),
    ("clang++ -O2, automatic variables filled with a pattern", True, "clang++ -std=gnu++11 -O2 -ftrivial-auto-var-init=pattern"),
    ("clang++ -O3 for this processor, no assertions", True, "clang++ -std=gnu++11 -O3 -march=native -DNDEBUG"),
    ("clang++ -Oz, wrapping arithmetic, unsigned char", False, "clang++ -std=gnu++11 -Oz -fwrapv -funsigned-char"),
    ("g++ -O2, trapping on undefined arithmetic", False, "g++ -std=gnu++11 -O2 -fsanitize=undefined -fno-sanitize=vptr,pointer-overflow -fsanitize-undefined-trap-on-error"),
]
LEVEL = {"C04": "fault_enumeration", "C05": "fault_enumeration", "C12": "fault_enumeration"}
# property: (variant, harness, needs the bwt program)
CHECKS = {
    "C01": ("plain", "c01.cpp", False),
    "C02": ("hook", "c02.cpp", False),
    "C03": ("plain", "c03.cpp", True),
    "C04": ("plain", "c04.cpp", True),
    "C05": ("plain", "c05.cpp", True),
    "C06": ("hook", "c06.cpp", False),
    "C07": ("hook", "c07.cpp", False),
    "C08": ("asan", "c08.cpp", False),
    "C09": ("plain", "c09.cpp", False),
    "C10": ("trace", "c10.cpp", False),
    "C11": ("plain", "c11.cpp", True),
    "C12": ("hook", "c12.cpp", False),
    "C13": ("plain", "c13.cpp", False),
    "C14": ("plain", "c14.cpp", False),
    "C15": ("plain", "c15.cpp", False),
    "C16": ("plain", "c16.cpp", False),
    "C17": ("plain", "c17.cpp", False),
    "C18": ("bare", "c18.cpp", False),
    "C19": ("hook", "c19.cpp", False),
    "C20": ("steps", "c20.cpp", False),
    "C21": ("hook", "c21.cpp", True),
    "C22": ("bare", "c22.cpp", False),
    "C23": ("unopt", "c23.cpp", False),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class BuildError(Exception):
    pass


def compile_all(jobs):
    def one(job):
        r = sh(job)
        return r.returncode, " ".join(job), r.stdout
    with ThreadPoolExecutor(8) as ex:
        for rc, cmd, out in ex.map(one, jobs):
            if rc:
                raise BuildError(cmd + "\n" + out)


def build_matrix(work, tier):
    """one shared object per build; a build that the compiler rejects is left out, except the first three"""
    src = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    todo = [(i, m) for i, m in enumerate(MATRIX) if m[1] or tier == "thorough"]
    common = ["-w", "-fPIC", "-DFLBWT_VERIFY", "-I" + REPO + "/include"]
    jobs = []
    for i, m in todo:
        if "-flto" in m[2]:
            jobs.append((i, m[2].split() + common + ["-fno-gnu-unique", "-shared", "-Wl,-Bsymbolic"] + src + ["-o", os.path.join(work, "v%d.so" % i)]))
        else:
            jobs += [(i, m[2].split() + common + (["-fno-gnu-unique"] if m[2].startswith("g++") else []) + ["-c", s, "-o", os.path.join(work, "v%d_%d.o" % (i, k))]) for k, s in enumerate(src)]
    failed = {}
    with ThreadPoolExecutor(8) as ex:
        for (i, job), r in zip(jobs, ex.map(lambda j: sh(j[1]), jobs)):
            if r.returncode:
                failed[i] = " ".join(job) + "\n" + r.stdout
    listing = []
    for i, m in todo:
        so = os.path.join(work, "v%d.so" % i)
        if i not in failed and "-flto" not in m[2]:
            c = m[2].split()
            r = sh([c[0], "-shared", "-Wl,-Bsymbolic", "-o", so] + [os.path.join(work, "v%d_%d.o" % (i, k)) for k in range(len(src))])
            if r.returncode:
                failed[i] = r.stdout
        if i in failed:
            if i < 3:
                raise BuildError(failed[i])
            print("C22: left out, does not compile: " + m[0])
        else:
            listing.append(so + "\t" + m[0])
    open(os.path.join(work, "builds"), "w").write("\n".join(listing) + "\n")


def build(prop, work, tier="quick"):
    if prop == "C22":
        build_matrix(work, tier)
        exe = os.path.join(work, "harness")
        compile_all([["g++", "-std=gnu++17", "-Wall", "-O2", "-g", "-DFLBWT_VERIFY", "-I" + VERIF + "/lib", "-I" + REPO + "/include", "-rdynamic", "-o", exe, os.path.join(VERIF, "checks", "c22.cpp"), "-lpthread", "-ldl"]])
        return exe
    variant, harness, cli = CHECKS[prop]
    cxx, rflags, hflags, lflags = VARIANTS[variant]
    inc = ["-I" + REPO + "/include"]
    objs, jobs = [], []
    for s in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        o = os.path.join(work, "repo_" + os.path.relpath(s, REPO + "/src").replace("/", "_") + ".o")
        objs.append(o)
        jobs.append([cxx] + CXX11 + rflags + inc + ["-c", s, "-o", o])
    h = os.path.join(work, "harness.o")
    jobs.append([cxx, "-std=gnu++17", "-Wall"] + hflags + ["-I" + VERIF + "/lib"] + inc + ["-c", os.path.join(VERIF, "checks", harness), "-o", h])
    cliobjs = []
    if cli:
        for s in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) + [REPO + "/examples/bwt.cpp"]:
            o = os.path.join(work, "cli_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
            cliobjs.append(o)
            jobs.append(["g++"] + CXX11 + ["-O2", "-g"] + inc + ["-c", s, "-o", o])
    compile_all(jobs)
    exe = os.path.join(work, "harness")
    links = [[cxx, "-o", exe, h] + objs + lflags + ["-lpthread", "-ldl"]]
    if cli:
        links.append(["g++", "-o", os.path.join(work, "bwt")] + cliobjs + ["-lpthread"])
    compile_all(links)
    return exe


def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    rest = []
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--replay":
            replay = json.load(open(a.pop(0)))
        else:
            rest.append(x)
    if replay:
        tier = replay["tier"]
    t0 = time.time()
    work = os.path.join(VERIF, "build", prop + ("-replay" if replay else ""))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    evidence = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    try:
        exe = build(prop, work, tier)
    except BuildError as e:
        print("check %s could not be built:\n%s" % (prop, e), file=sys.stderr)
        shutil.rmtree(work, ignore_errors=True)
        return 2
    tb = time.time() - t0
    out = os.path.join(work, "result.json")
    cmd = [exe, "--tier", tier, "--seed", str(seed), "--work", os.path.join(work, "run"), "--repo", REPO, "--cli", os.path.join(work, "bwt")] + rest
    limit = int(os.environ.get("FLBWT_LIMIT", 0)) or (3600 * 6 if tier == "thorough" else 860)
    if replay:
        r = subprocess.run(cmd + ["--replay", replay["group"], str(replay["index"]), "--from", str(replay["from"])])
        shutil.rmtree(work, ignore_errors=True)
        return r.returncode
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0", LC_ALL="C")
    p = subprocess.Popen(cmd + ["--out", out], stdin=subprocess.DEVNULL, start_new_session=True, env=env)
    try:
        rc = p.wait(limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        print("check %s did not finish in %d s" % (prop, limit), file=sys.stderr)
        rc = 2
    res = json.load(open(out)) if os.path.exists(out) else None
    if res is None or rc not in (0, 1):
        print("check %s gave no verdict (harness exit %s)" % (prop, rc), file=sys.stderr)
        shutil.rmtree(work, ignore_errors=True)
        return 2
    level = LEVEL.get(prop, "model_checking")
    cov = {k: v for k, v in res.items() if k not in ("violations", "assumptions", "infra", "wall_s", "cases_planned")}
    if level == "fault_enumeration":
        cov["evaluations"] = cov.pop("cases_done")
        cov["distinct_nontrivial"] = cov.pop("states")
        cov["rule"] = "; ".join(g["name"] + ": " + g["rule"] for g in res["groups"])
        cov.pop("transitions", None)
        cov.pop("traces_validated_against_impl", None)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": res["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(res["violations"])}
    json.dump(ev, open(evidence, "w"), indent=1)
    if os.environ.get("FLBWT_COSTS"):
        for g in res["groups"]:
            print("  %-40s %10d cases %6d cpu s" % (g["name"], g["cases"], g["cpu_s"]))
    print("%s %s: %d cases, %d distinct states, %d outcomes, %d transitions, build %.0f s, exploration %.0f s" % (
        prop, tier, res["cases_done"], res["states"], res["distinct_outcomes"], res["transitions"], tb, res["wall_s"]))
    shutil.rmtree(work, ignore_errors=True)
    if rc == 0:
        return 0
    v = [x for x in res["violations"] if x["best"]][0]
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, prop + ".json")
    json.dump({"property": prop, "tier": tier, "group": v["group"], "index": v["index"], "from": v["from"], "confirmed_by_replay": v["confirmed"],
               "case": v["case"], "message": v["message"], "how": "python3 /verif/run.py %s --replay %s" % (prop, rp)}, open(rp, "w"), indent=1)
    print("case: %s #%d: %s" % (v["group"], v["index"], v["case"][:600]))
    print("what: %s" % v["message"][:3000])
    print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1


if __name__ == "__main__":
    sys.exit(main())
