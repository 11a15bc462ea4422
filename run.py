#!/usr/bin/env python3
"""Runs the check of one property:  run.py C01 [--tier quick|thorough] [--replay FILE]

1. builds the property's harness (and, where it needs it, the mara executable)
   from /repo's working tree into build/<ID>/, never writing in /repo;
2. runs every law of the harness, in parallel, over generated cases;
3. writes evidence/<ID>.json and prints VIOLATION / KNOWN-FINDING lines.

Exit 0: held on everything explored (known findings aside).  Exit 1: violated.
Exit 2: the check itself could not run (the harness does not build).
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MARA_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

NCPU = min(8, os.cpu_count() or 8)
CXX = "mpicxx.openmpi"
BASE = ["-std=c++17", "-DCATCH_CONFIG_NO_POSIX_SIGNALS", "-include", "cstring",
        "-isystem", "/usr/include/hdf5/openmpi", "-w", "-pipe"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-lhdf5", "-lpthread"]
SAN = {
    "asan": ["-O1", "-g0", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "opt": ["-O2"],
    "fast": ["-O1"],
}
OPTS = """#pragma once
#define MARA_COMPILE_SUBPROGRAM_AMRSAND 1
#define MARA_COMPILE_SUBPROGRAM_BOILERPLATE 1
#define MARA_COMPILE_SUBPROGRAM_BINARY 1
#define MARA_COMPILE_SUBPROGRAM_CLOUD 1
#define MARA_COMPILE_SUBPROGRAM_PARTDOM 1
#define MARA_COMPILE_SUBPROGRAM_SEDOV 1
#define MARA_COMPILE_SUBPROGRAM_TEST 0
#define MARA_PREFERRED_THREAD_COUNT 4
"""


def env():
    e = dict(os.environ)
    e.update(OMPI_CXX="g++", OMPI_MCA_btl="self,vader", OMPI_ALLOW_RUN_AS_ROOT="1",
             OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", LC_ALL="C.UTF-8",
             OMPI_MCA_btl_vader_single_copy_mechanism="none",
             OMPI_MCA_rmaps_base_oversubscribe="1",
             OMPI_MCA_mpi_yield_when_idle="1",
             HDF5_USE_FILE_LOCKING="FALSE",
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0",
             UBSAN_OPTIONS="halt_on_error=1:exitcode=78",
             TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_thread_leaks=0")
    for k in ("MAKEFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH"):
        e.pop(k, None)
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(pid, spec, bdir):
    """Compiles everything the property needs; returns the harness binaries."""
    inc = os.path.join(bdir, "include")
    os.makedirs(inc, exist_ok=True)
    with open(os.path.join(inc, "app_compile_opts.hpp"), "w") as f:
        f.write(OPTS)
    src = os.path.join(REPO, "src")
    # A git-ignored app_compile_opts.hpp may sit beside the sources and would win
    # over ours for quoted includes, so the sources are mirrored as symlinks.
    mirror = os.path.join(bdir, "src")
    shutil.rmtree(mirror, ignore_errors=True)
    os.makedirs(mirror)
    for f in os.listdir(src):
        if f.endswith((".hpp", ".cpp", ".h", ".c", ".ipp")) and f != "app_compile_opts.hpp":
            shutil.copy(os.path.join(src, f), mirror)
    shutil.copy(os.path.join(inc, "app_compile_opts.hpp"), mirror)

    jobs = []       # (command, output)
    links = []      # (objects, output)
    for h in spec["harness"]:
        variant = h.get("variant", "asan")
        name = h["file"].replace(".cpp", "") + "." + h.get("name", variant)
        flags = BASE + SAN[variant] + h.get("flags", [])
        obj = os.path.join(bdir, name + ".o")
        jobs.append([CXX] + flags + ["-I", mirror, "-I", os.path.join(HERE, "harness"), "-c",
                                     os.path.join(HERE, "harness", h["file"]), "-o", obj])
        objs = [obj]
        for extra in h.get("repo_sources", []):
            for path in sorted(glob.glob(os.path.join(mirror, extra))):
                o = os.path.join(bdir, name + "." + os.path.basename(path) + ".o")
                jobs.append([CXX] + flags + ["-I", mirror, "-c", path, "-o", o])
                objs.append(o)
        links.append((objs, flags, os.path.join(bdir, name)))
    for so in spec.get("preload", []):
        jobs.append([CXX, "-O1", "-shared", "-fPIC", "-w", os.path.join(HERE, "harness", so + ".cpp"), "-o",
                     os.path.join(bdir, so + ".so"), "-ldl"])
    programs = {"mara": "fast"} if spec.get("mara") is True else spec.get("mara", {})
    for exe, variant in programs.items():
        flags = BASE + SAN[variant]
        objs = []
        for path in sorted(glob.glob(os.path.join(mirror, "*.cpp"))):
            if path.endswith("_test.cpp"):
                continue
            o = os.path.join(bdir, exe + "." + os.path.basename(path) + ".o")
            jobs.append([CXX] + flags + ["-I", mirror, "-c", path, "-o", o])
            objs.append(o)
        links.append((objs, flags, os.path.join(bdir, exe)))

    def run(cmd):
        r = sh(cmd)
        return cmd, r.returncode, r.stdout
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for cmd, rc, out in ex.map(run, jobs):
            if rc:
                print(" ".join(cmd)); print(out[-6000:])
                print("ERROR: the harness of %s does not compile against %s" % (pid, REPO))
                sys.exit(2)
        for cmd, rc, out in ex.map(run, [[CXX] + fl + objs + ["-o", exe] + LIBS for objs, fl, exe in links]):
            if rc:
                print(" ".join(cmd)); print(out[-6000:])
                print("ERROR: the harness of %s does not link" % pid)
                sys.exit(2)
    return [exe for _, _, exe in links if os.path.basename(exe) not in programs]


def load_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get("open", []) if f["property"] == pid]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    cases = sys.argv[sys.argv.index("--cases") + 1] if "--cases" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    root = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
    bdir = os.path.join(root, pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    exes = build(pid, spec, bdir)
    t_build = time.time() - t0

    scratch = os.path.join(bdir, "scratch")
    os.makedirs(scratch)
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    e = env()
    e["MARA_BIN"] = os.path.join(bdir, "mara")
    e["MARA_TSAN"] = os.path.join(bdir, "mara.tsan")
    e["JITTER_SO"] = os.path.join(bdir, "jitter.so")
    e["PBT_SCRATCH"] = scratch
    e["VERIF_TIER"] = tier

    if "--replay" in sys.argv:
        f = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
        rc = 0
        for exe in exes:
            r = subprocess.run([exe, "--replay", f], env=e, cwd=scratch)
            rc = max(rc, r.returncode if r.returncode in (0, 1) else 0)
        sys.exit(rc)

    tasks = []
    for exe in exes:
        names = subprocess.run([exe, "--list"], env=e, stdout=subprocess.PIPE, text=True).stdout.split("\n")
        for law in [n for n in names if n and (not only or re.search(only, n))]:
            tasks.append((exe, law))
    if not tasks:
        print("ERROR: no laws"); sys.exit(2)
    thorough = tier == "thorough"
    budget = spec.get("thorough_s", 600) if thorough else spec.get("quick_s", 150)
    workers = spec.get("workers", NCPU)
    shards = 8 if thorough else spec.get("shards", max(1, min(8, 8 // len(tasks))))
    work = [(exe, law, s) for s in range(shards) for exe, law in tasks]
    max_s = budget if not thorough else max(5.0, budget * workers / len(work))

    began, failures = time.time(), []

    def one(item):
        exe, law, shard = item
        if failures and time.time() - began > 200:     # slow failures (deadlocks): the verdict stands, the rest need not run
            return None
        tag = os.path.basename(exe) + "." + re.sub(r"[^A-Za-z0-9_.-]", "_", law) + ".%d" % shard
        out = os.path.join(bdir, tag + ".json")
        replay = os.path.join(rdir, "%s.replay" % tag)
        if os.path.exists(replay):
            os.unlink(replay)
        cmd = [exe, "--law", law, "--out", out, "--seed", str(seed * 1000 + shard), "--property", pid,
               "--replay-out", replay, "--max-s", "%g" % max_s,
               "--scale", "1e6" if thorough else "%g" % (spec.get("mult", 1.0) / shards)]
        if cases:
            cmd += ["--cases", cases]
        wd = os.path.join(scratch, tag)
        os.makedirs(wd, exist_ok=True)
        ee = dict(e); ee["PBT_SCRATCH"] = wd
        r = subprocess.run(cmd, env=ee, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        shutil.rmtree(wd, ignore_errors=True)
        if not os.path.exists(out):
            return {"law": law, "crashed": r.returncode, "output": r.stdout[-2000:], "failed": False}
        d = json.load(open(out))
        d["replay"] = replay
        d["shard"] = shard
        if d["failed"]:
            failures.append(law)
        d["exe"] = os.path.basename(exe)
        d["key"] = law if sum(1 for _, l in tasks if l == law) == 1 else law + " (" + d["exe"].split(".")[-1] + ")"
        return d

    with cf.ThreadPoolExecutor(workers) as ex:
        results = [r for r in ex.map(one, work) if r is not None]

    broken = [r for r in results if "crashed" in r]
    if broken:
        print("ERROR: law runner died: %s" % broken[0]); sys.exit(2)

    findings = load_findings(pid)
    violations, known = [], []
    for r in results:
        if not r["failed"]:
            continue
        hit = None
        for f in findings:
            if f["law"] == r["law"] and re.search(f["match"], r["message"] + " | " + r["case"]):
                hit = f
        (known if hit else violations).append((r, hit))

    per_law = {}
    for r in results:
        p = per_law.setdefault(r["key"], {"evaluations": 0, "discards": 0, "nontrivial": 0, "distinct_nontrivial": 0,
                                          "rule": r["rule"], "classes": {}, "wall_s": 0, "slowest_case_ms": 0})
        for k in ("evaluations", "discards", "nontrivial", "distinct_nontrivial"):
            p[k] += r[k]
        p["wall_s"] = round(p["wall_s"] + r["wall_s"], 2)
        p["slowest_case_ms"] = max(p["slowest_case_ms"], r["slowest_case_ms"])
        for c, n in r["classes"].items():
            p["classes"][c] = p["classes"].get(c, 0) + n
        if r.get("note"):
            p.setdefault("notes", []).append(r["note"])
    samples = []
    for r in results:
        for s in r["samples"][:2]:
            if len(samples) < 40 and sum(1 for x in samples if x["law"] == r["law"]) < 3:
                samples.append({"law": r["law"], "case": s})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in per_law.values()),
            "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in per_law.values()),
            "rule": "Each case is drawn from the law's generator (a tape of bounded random draws seeded by VERIF_SEED, the law's name and the case number); "
                    "two cases are distinct if their tapes differ; a case is non-trivial if, per law: "
                    + "; ".join("[%s] %s" % (n, p["rule"]) for n, p in per_law.items()),
            "samples": samples,
            "laws": per_law,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(t_build, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    print("%s: %d cases, %d distinct non-trivial, %d laws, build %.1f s, total %.1f s" % (
        pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], len(per_law), t_build, time.time() - t0))
    if "-v" in sys.argv:
        for n, p in per_law.items():
            print("  %-42s n=%d disc=%d nontriv=%d %.1fs max %.1fms %s %s" % (n, p["evaluations"], p["discards"], p["distinct_nontrivial"], p["wall_s"], p["slowest_case_ms"], p["classes"], p.get("notes", "")))
    seen = set()
    for r, _ in violations:
        if r["key"] in seen:
            continue
        seen.add(r["key"])
        print("law %s: %s" % (r["law"], r["message"]))
        print("  case: %s" % r["case"][:1500])
        print("VIOLATION property=%s replay=%s" % (pid, r["replay"]))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
