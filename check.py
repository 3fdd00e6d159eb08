#!/usr/bin/env python3
"""Decide one property by seeded deterministic simulation.

  check.py C01 [--tier quick|thorough]     search; exit 0 held, 1 violation, 2 the check itself failed
  check.py --replay FILE                   execute one trace file again
  check.py --build                         build everything (used by setup_cmd)
"""
import sys, os, re, json, subprocess, time, hashlib, shutil, glob, fcntl, argparse, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
CACHE = os.path.join(HERE, "build")
NCPU = min(8, os.cpu_count() or 8)

COMMON = ["-w", "-fPIC", "-shared", "-fvisibility=hidden", "-Wl,-z,now", "-Wl,-Bsymbolic",
          "-Wl,--version-script=" + os.path.join(SIM, "variant.map"), "-I" + os.path.join(REPO, "include"), "-I" + SIM]


def library_sources():
    """what meson.build links into the library"""
    found = []
    try:
        m = re.search(r"\blibrary\s*\(\s*'pandaresampler'(.*?)\binclude_directories", open(os.path.join(REPO, "meson.build")).read(), re.S)
        found = [os.path.join(REPO, f) for f in re.findall(r"'([^']+\.(?:cc|cpp|cxx|c))'", m.group(1))]
    except (OSError, AttributeError):
        pass
    found = [f for f in found if os.path.exists(f)]
    return found or [os.path.join(REPO, "include/pandaresampler/pandaresampler.cc")]


SRC = [os.path.join(SIM, "variant.cc")] + library_sources()
VARIANTS = {
    "gcc":    ["g++", "-std=c++11", "-O3", "-fno-gnu-unique"],
    "clang":  ["clang++", "-std=c++11", "-O3"],
    "honly":  ["g++", "-std=c++20", "-O2", "-fno-gnu-unique", "-DPANDA_RESAMPLER_HEADER_ONLY"],
    "nosse":  ["g++", "-O2", "-fno-gnu-unique", "-U__SSE__"],
    "neon":   ["g++", "-std=c++14", "-O2", "-fno-gnu-unique", "-U__SSE__", "-D__ARM_NEON", "-I" + os.path.join(SIM, "fakeneon")],
    "ndebug": ["clang++", "-std=c++20", "-O2", "-DNDEBUG"],
    "dbg":    ["g++", "-std=c++11", "-O1", "-fno-gnu-unique", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_ASSERTIONS"],
    "avx":    ["g++", "-std=c++17", "-O3", "-fno-gnu-unique", "-mavx2", "-mfma"],
    "cov":    ["clang++", "-std=c++11", "-O1", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"],
}
OPTIONAL = ("neon", "nosse", "dbg", "avx", "clang", "ndebug", "honly")


def cpu_can_avx():
    try:
        flags = open("/proc/cpuinfo").read().split()
        return "avx2" in flags and "fma" in flags
    except OSError:
        return False


FALLBACK = []
EXE_SRC = ["main", "trace", "arena", "sched", "model", "world", "host", "gen"]

# runs per tier and seconds of search at most
QUICK = {p: (n, 150) for p, n in {
    "C01": 30000, "C02": 24000, "C03": 30000, "C04": 40000, "C05": 40000, "C06": 36000, "C07": 30000, "C08": 40000, "C09": 22000,
    "C10": 34000, "C11": 36000, "C12": 80000, "C13": 34000, "C14": 36000, "C15": 12000, "C16": 15000, "C17": 26000, "C19": 40000}.items()}
THOROUGH_FACTOR, THOROUGH_WALL = 40, 700

LEVELS = {"C05": "fault_enumeration"}


def hash_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def repo_files():
    out = []
    for root, _, names in os.walk(os.path.join(REPO, "include")):
        out += [os.path.join(root, n) for n in names]
    return sorted(set(out + SRC[1:]))


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def compile_one(job):
    name, cmd, out = job
    if os.path.exists(out):
        return None
    tmp = "%s.tmp%d" % (out, os.getpid())
    rc, txt = sh(cmd + ["-o", tmp])
    if rc != 0:
        return "%s failed:\n%s" % (" ".join(cmd), txt[-3000:])
    os.rename(tmp, out)
    return None


def build():
    """Compiles simulator and library builds from the current trees; returns (sim executable, library directory)."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        simfiles = [f for f in glob.glob(SIM + "/**/*", recursive=True) if os.path.isfile(f)] + [os.path.abspath(__file__)]
        hs = hash_files(simfiles)
        hr = hash_files(simfiles + repo_files())
        ed = os.path.join(CACHE, "exe-" + hs)
        ld = os.path.join(CACHE, "lib-" + hr)
        for d in glob.glob(CACHE + "/exe-*") + glob.glob(CACHE + "/lib-*"):
            if d not in (ed, ld) and time.time() - os.path.getmtime(d) > 7200:
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(ed, exist_ok=True)
        os.makedirs(ld, exist_ok=True)
        jobs = []
        for n, flags in VARIANTS.items():
            if n == "avx" and not cpu_can_avx():
                FALLBACK.append((os.path.join(ld, "gcc.so"), os.path.join(ld, "avx.so")))
                continue
            src = SRC[:1] if n == "honly" else SRC
            jobs.append((n, flags + COMMON + ['-DVARIANT_ID="%s"' % n] + src, os.path.join(ld, n + ".so")))
        for s in EXE_SRC:
            o = "-O3" if s == "model" else "-O2"
            jobs.append((s, ["g++", "-std=c++17", o, "-c", os.path.join(SIM, s + ".cc")], os.path.join(ed, s + ".o")))
        jobs.sort(key=lambda j: j[0] not in ("gcc", "world", "honly", "clang"))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            errs = []
            for (name, _, out), e in zip(jobs, ex.map(compile_one, jobs)):
                if e and name in OPTIONAL:
                    # such a build is not part of the repository's own; the checks go on without it
                    print("note: build '%s' is not possible, its runs use 'gcc'" % name)
                    FALLBACK.append((os.path.join(ld, "gcc.so"), out))
                elif e:
                    errs.append(e)
            for a, b in FALLBACK:
                if os.path.exists(a):
                    shutil.copyfile(a, b + ".tmp")
                    os.rename(b + ".tmp", b)
        if errs:
            print("\n".join(errs))
            sys.exit(2)
        exe = os.path.join(ed, "sim")
        e = compile_one(("sim", ["g++", "-rdynamic"] + [os.path.join(ed, s + ".o") for s in EXE_SRC] + ["-ldl", "-lpthread"], exe))
        if e:
            print(e)
            sys.exit(2)
        for ref in [os.path.join(ld, n + e) for n in VARIANTS for e in (".ref.so", ".solo.so")]:
            n = os.path.basename(ref).split(".")[0]
            if not os.path.exists(ref):
                shutil.copyfile(os.path.join(ld, n + ".so"), ref + ".tmp")
                os.rename(ref + ".tmp", ref)
        os.utime(ed)
        os.utime(ld)
    return exe, ld


def known_findings(prop):
    out = []
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("open: property=%s " % prop):
                # open: property=<id> match=<text of the failure> :: what fails
                m, _, what = l.split(" ", 2)[2].partition(" :: ")
                out.append((m[len("match="):], what))
    return out


def replay(exe, ld, trace):
    rc, txt = sh([exe, "replay", "--lib", ld, "--trace", trace], timeout=300)
    # the code under test may have printed something first
    lines = [l for l in txt.splitlines() if l.startswith(("FAILED ", "HELD", "ERROR"))]
    return rc, (lines[-1] if lines else txt).strip()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--count", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    exe, ld = build()
    if a.build:
        print("built", exe, ld)
        return 0
    if a.replay:
        rc, txt = replay(exe, ld, a.replay)
        print(txt)
        return rc
    prop = a.prop
    tier = "thorough" if a.tier == "thorough" else "quick"
    count, wall = QUICK[prop]
    if tier == "thorough":
        count, wall = count * THOROUGH_FACTOR, THOROUGH_WALL
    count = a.count or count
    wall = a.wall or wall
    t_build = time.time() - t0
    wd = os.path.join(CACHE, "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    known = known_findings(prop)
    procs = []
    for w in range(NCPU):
        out = os.path.join(wd, "w%d.json" % w)
        procs.append((out, subprocess.Popen([exe, "work", "--prop", prop, "--seed", str(a.seed), "--start", str(w), "--stride", str(NCPU), "--count", str(count),
                                             "--wall", str(wall), "--tier", "1" if tier == "thorough" else "0", "--lib", ld, "--out", out,
                                             "--known", "|".join(k for k, _ in known)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    res, errors = [], []
    feats = bytearray()
    for out, p in procs:
        try:
            txt, _ = p.communicate(timeout=wall + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            txt = "worker timed out"
        if p.returncode != 0 or not os.path.exists(out):
            errors.append("worker failed (%s): %s" % (p.returncode, txt[-500:]))
            continue
        res.append(json.load(open(out)))
        fb = open(out + ".feat", "rb").read()
        if len(feats) < len(fb):
            feats += bytes(len(fb) - len(feats))
        for i, b in enumerate(fb):
            feats[i] |= b
    t_search = time.time() - t0 - t_build
    violation = None
    fails = sorted((f for r in res for f in r["fails"]), key=lambda f: int(f["seed"]))
    rep_dir = os.path.join(HERE, "replays")
    for f in fails[:12]:
        # the same trace must fail the same way in a fresh process before anything is reported
        rc, txt = replay(exe, ld, f["trace"])
        if rc != 1 or not txt.startswith("FAILED " + f["oracle"]):
            errors.append("failure of seed %s did not reproduce: %s / %s" % (f["seed"], f["msg"], txt))
            continue
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, "%s-%s.trace" % (prop, f["seed"]))
        sh([exe, "min", "--lib", ld, "--trace", f["trace"], "--out", path, "--budget", "25"], timeout=400)
        rc, txt = replay(exe, ld, path) if os.path.exists(path) else (3, "")
        if rc != 1:
            shutil.copyfile(f["trace"], path)
            rc, txt = replay(exe, ld, path)
        violation = (f, path, txt)
        break
    tot = {}
    for r in res:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    runs = sum(r["runs"] for r in res)
    mism = sum(r["mismatch"] for r in res)
    internal = sum(r["internal"] for r in res)
    for r in res:
        if (r["mismatch"] or r["internal"]) and not violation:
            errors.append("simulator: " + r["first_internal"])
    ileave = set(x for r in res for x in r["ileaves"])
    nfeat = sum(bin(b).count("1") for b in feats)
    distinct = sum(r["traces"] for r in res)
    samples = []
    for k in (0, 1):
        rc, txt = sh([exe, "gen", "--prop", prop, "--seed", str(a.seed * 1000 + k), "--tier", "0"])
        samples.append("\n".join(txt.splitlines()[:24]))
    worst = max(res, key=lambda r: r["max_ratio"]) if res else None
    faults = {k[2:]: v for k, v in tot.items() if k.startswith("f_") and v}
    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": LEVELS.get(prop, "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": distinct,
            "rule": "One evaluation is one simulated run: a trace of host operations and faults generated from one seed and executed in a forked process. "
                    "Distinct: different trace text. Non-trivial: by construction every generated trace constructs objects of the library and drives them through several operations.",
            "samples": samples,
            "runs_per_hour": int(runs / max(t_search, 1e-3) * 3600), "seeds_per_hour": int(runs / max(t_search, 1e-3) * 3600),
            "simulated_seconds_of_audio_at_44100": round(tot.get("low_samples", 0) / 44100.0, 1),
            "faults_injected": faults,
            "operations": tot.get("ops", 0), "library_calls": tot.get("calls", 0), "blocks_processed": tot.get("proc_calls", 0),
            "output_samples_checked": tot.get("out_samples_checked", 0), "streams_compared": tot.get("streams_compared", 0),
            "instances": tot.get("instances", 0), "allocations_served": tot.get("alloc_calls", 0), "memory_accesses_checked": tot.get("mem_accesses_checked", 0),
            "scheduler_steps": tot.get("sched_steps", 0), "distinct_interleavings": len(ileave),
            "distinct_states": nfeat, "distinct_states_measure": "set bits of a 2^18 bitmap hashing (configuration, operation, preceding operation, block length class, buffer alignment, age, fault outcome, preemption point)",
            "runs_reexecuted_for_repeatability": sum(r["rechecked"] for r in res), "repeat_mismatches": mism, "marathons_given_up_for_time": sum(r["skipped"] for r in res),
            "largest_error_over_tolerance": round(worst["max_ratio"], 4) if worst else None, "largest_error_where": worst["max_where"] if worst else "",
            "components_real": "all of include/pandaresampler.hh, include/pandaresampler/pandaresampler.cc and hiir/*, compiled as: " + ", ".join(VARIANTS),
            "components_stubbed": "host application, malloc family, rand(), thread scheduler and locks, <arm_neon.h> (build 'neon' only)",
            "build_seconds": round(t_build, 1),
        },
        "assumptions": ["x86-64 only; the NEON branch runs on a lane-wise stand-in for arm_neon.h", "the expected streams come from the same tree under calm conditions (second copy of the same build) or from its impulse response, as described in DESIGN.md"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    shutil.rmtree(wd, ignore_errors=True)
    for k, what in known:
        if any(k in r["known"] for r in res):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s: %d runs in %.1f s search (+%.1f s build), %d distinct states, %d interleavings, max error/tolerance %.3f (%s)" %
          (prop, runs, t_search, t_build, nfeat, len(ileave), worst["max_ratio"] if worst else 0, worst["max_where"] if worst else ""))
    if violation:
        f, path, txt = violation
        print("seed %s: %s" % (f["seed"], txt))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("\n".join(errors))
        return 2
    if runs < min(count, 200):
        print("too few runs completed")
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2          # the check itself failed; 1 means a violation
    sys.exit(rc)
