#!/usr/bin/env python3
"""Builds one check from /repo's working tree and /verif/harness and runs it.

usage: check.py C01 [--tier quick|thorough] [options passed to the check]
"""
import concurrent.futures
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TSETLINI_REPO", "/repo")
SRC = os.path.join(REPO, "lib", "src")
INC = os.path.join(REPO, "lib", "include")
HARNESS = os.path.join(VERIF, "harness")

GCC = ["g++", "-std=c++17", "-O2", "-g0", "-fopenmp", "-include", "cstdint", "-w"]
# no OpenMP runtime with clang here: parallel regions are compiled as serial code
SAN = ["clang++", "-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-include", "cstdint", "-w",
       "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment"]
# accesses which optimisers find out to be of no use are still made in this one
PLAIN = ["clang++", "-std=c++17", "-O0", "-g1", "-fno-omit-frame-pointer", "-include", "cstdint", "-w",
         "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment"]
TSAN = ["clang++", "-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-include", "cstdint", "-w", "-fsanitize=thread"]
ASAN = ["clang++", "-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-include", "cstdint", "-w", "-fsanitize=address"]
MEM = ["g++", "-std=c++17", "-O1", "-g1", "-include", "cstdint", "-w", "-DPBT_MEMCHECK"]
VALGRIND = ["valgrind", "-q", "--error-limit=no", "--undef-value-errors=yes", "--leak-check=no", "--log-file=/dev/null"]

# name, compiler flags, command prefix, environment, share of the cases
MAIN = ("main", GCC, [], {}, 1.0)
STAGES = {
    "C14": [MAIN, ("tsan", TSAN, [], {"PBT_MODE": "threads"}, 0.1)],
    "C20": [("main", SAN, [], {}, 0.7), ("unoptimised", PLAIN, [], {}, 0.3), ("memcheck", MEM, VALGRIND, {"PBT_ENV": "1"}, 0.05)],
    "C24": [MAIN, ("asan", ASAN, [], {}, 0.15)],
}


# Uses of the interface which the property promises to compile. Should a check compile only without them, that is a
# violation: name, flag which leaves the uses out, what is broken then.
FALLBACK = {
    "C09": ("-DPBT_NO_ARGUMENTS", "factories do not accept all subsets, orders and value categories of their named arguments"),
    "C22": ("-DPBT_NO_MOVE_ONLY", "results holding values which can only be moved cannot be mapped, joined or moved"),
}


def tree_hash(dirs, flags):
    h = hashlib.sha256(repr(flags).encode())
    for d in dirs:
        for root, subdirs, files in os.walk(d):
            subdirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def compile_one(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), cmd


def build(check, flags):
    name = check.lower()
    lib_key = tree_hash([SRC, INC], flags)
    key = tree_hash([SRC, INC, HARNESS], flags)
    libdir = os.path.join(VERIF, "build", "lib-" + lib_key)
    outdir = os.path.join(VERIF, "build", "bin-" + key)
    exe = os.path.join(outdir, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(libdir, exist_ok=True)
    os.makedirs(outdir, exist_ok=True)
    inc = ["-I" + INC, "-I" + SRC]
    jobs = []
    objs = []
    # biggest first
    sources = sorted((f for f in os.listdir(SRC) if f.endswith(".cpp")),
                     key=lambda f: -os.path.getsize(os.path.join(SRC, f)))
    for src, dst in ([(os.path.join(HARNESS, name + ".cpp"), os.path.join(outdir, name + ".o"))]
                     + [(os.path.join(SRC, f), os.path.join(libdir, f[:-4] + ".o")) for f in sources]
                     + [(os.path.join(HARNESS, "engine.cpp"), os.path.join(outdir, "engine.o"))]):
        objs.append(dst)
        if not os.path.exists(dst):
            jobs.append((flags + inc + ["-c", src, "-o", dst + ".tmp%d" % os.getpid()], dst))
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for (res, cmd), (_, dst) in zip(ex.map(compile_one, [j[0] for j in jobs]), jobs):
            if res.returncode:
                raise BuildError(" ".join(cmd) + "\n" + res.stdout[-6000:])
            os.replace(cmd[-1], dst)
    tmp = exe + ".tmp%d" % os.getpid()
    link = [f for f in flags if f.startswith(("-f", "-std")) or f in ("g++", "clang++")]
    res = subprocess.run(link + objs + ["-o", tmp, "-pthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if res.returncode:
        raise BuildError("link\n" + res.stdout[-6000:])
    os.replace(tmp, exe)
    return exe


def known_findings(check):
    """Prints the open findings of the property (none is suppressed without being listed)."""
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return
    with open(path) as fh:
        for line in fh:
            if line.startswith("finding: property=%s " % check):
                print("KNOWN-FINDING:", line.split(":", 1)[1].strip())


def option(rest, name, default):
    if name in rest:
        i = rest.index(name)
        v = rest[i + 1]
        del rest[i:i + 2]
        return v
    return default


def main():
    check = sys.argv[1].upper()
    rest = sys.argv[2:]
    tier = option(rest, "--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(option(rest, "--seed", os.environ.get("VERIF_SEED", "1")))
    only = option(rest, "--stage", None)
    replay = option(rest, "--replay", None)
    evidence = os.path.join(VERIF, "evidence", check + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if replay and os.path.basename(replay).endswith("-compile"):
        replay = None       # to be shown by building again
    if replay:
        with open(replay) as fh:
            for line in fh:
                if line.startswith("stage "):
                    only = line.split()[1]
    stages = [s for s in STAGES.get(check, [MAIN]) if only in (None, s[0])]
    if not replay:
        known_findings(check)
    merged = None
    for k, (name, flags, prefix, extra, share) in enumerate(stages):
        broken = None
        try:
            exe = build(check, flags)
        except BuildError as e:
            if check not in FALLBACK:
                print("BUILD-ERROR:", e)
                sys.exit(2)
            try:
                exe = build(check, flags + [FALLBACK[check][0]])
            except BuildError as e2:
                print("BUILD-ERROR:", e2)
                sys.exit(2)
            broken = str(e)
        sys.stdout.flush()
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1"
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
        env["PBT_STAGE"] = name
        env["PBT_SHARE"] = str(share)
        env.update(extra)
        if replay and not broken:
            sys.exit(subprocess.call(prefix + [exe, "--replay", replay] + rest, env=env))
        # stages see different cases
        rc = subprocess.call(prefix + [exe, "--tier", tier, "--seed", str(seed + 1000003 * k), "--evidence", evidence,
                                       "--replaydir", os.path.join(VERIF, "replays")] + rest, env=env)
        if os.path.exists(evidence):
            with open(evidence) as fh:
                ev = json.load(fh)
            if len(stages) > 1:
                c = ev["coverage"]
                part = {"stage": name, "compiler": " ".join(flags), "evaluations": c["evaluations"],
                        "distinct_nontrivial": c["distinct_nontrivial"], "wall_s": ev["wall_s"]}
                if merged is None:
                    merged = ev
                    c["stages"] = [part]
                else:
                    m = merged["coverage"]
                    m["stages"].append(part)
                    for key in ("evaluations", "distinct_nontrivial", "oracle_comparisons", "cases_inconclusive", "cases_requested"):
                        m[key] += c[key]
                    merged["wall_s"] += ev["wall_s"]
                    merged["violations"] += ev["violations"]
                merged["seed"] = seed
                with open(evidence, "w") as fh:
                    json.dump(merged, fh, indent=1)
        if broken and rc == 0:
            path = os.path.join(VERIF, "replays", check + "-compile")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as fh:
                fh.write("%s\n%s\n" % (FALLBACK[check][1], broken))
            print("%s: %s" % (check, FALLBACK[check][1]))
            print("VIOLATION property=%s replay=%s" % (check, path))
            rc = 1
        if rc:
            sys.exit(rc)


if __name__ == "__main__":
    main()
