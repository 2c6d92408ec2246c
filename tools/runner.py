"""Driver shared by all the checks: build, search, evidence, verdict."""
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RTBOT_REPO", "/repo")
SRC = os.path.join(ROOT, "src")
INC = ["libs/core/include", "libs/core/include/rtbot", "libs/std/include", "libs/finance/include", "libs/api/include"]
ADDRESS = ["-fsanitize=address"]
SAN = ["-fsanitize=bounds,signed-integer-overflow,float-cast-overflow,integer-divide-by-zero,return,shift",
       "-fno-sanitize-recover=all"]
ASAN = "detect_leaks=0:quarantine_size_mb=8:malloc_context_size=3:hard_rss_limit_mb=2500:allocator_may_return_null=0"


class BuildError(Exception):
    pass


def compile_one(job):
    cmd, what = job
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("compiling %s failed:\n%s" % (what, p.stdout[-6000:]))


def build_cpp(build, prop_src, repo_sources=(), extra_sources=(), extra_flags=(), fuzzer=False, extra_inc=(), asan=True):
    """Compile prop_src + engine + repo_sources (relative to REPO) into build/prop."""
    os.makedirs(build, exist_ok=True)
    inc = ["-I" + os.path.join(REPO, i) for i in INC] + ["-I" + i for i in extra_inc] + ["-I" + SRC]
    san = (ADDRESS if asan or fuzzer else []) + SAN
    base = ["clang++", "-std=c++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"] + san
    if fuzzer:
        base += ["-fsanitize=fuzzer-no-link", "-DPBT_FUZZER"]
    base += ["-include", os.path.join(SRC, "pre.h")] + inc + list(extra_flags)
    jobs, objs = [], []
    srcs = [prop_src] + [os.path.join(SRC, s) for s in extra_sources]
    srcs += [os.path.join(SRC, s) for s in ("pbt.cpp", "gen.cpp", "ref.cpp")]
    srcs += [os.path.join(REPO, s) for s in repo_sources]
    for s in srcs:
        o = os.path.join(build, s.strip("/").replace("/", "_") + ".o")
        objs.append(o)
        jobs.append((base + ["-c", s, "-o", o], s))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(compile_one, jobs))
    exe = os.path.join(build, "fuzz" if fuzzer else "prop")
    compile_one((["clang++"] + san + (["-fsanitize=fuzzer"] if fuzzer else []) + objs + ["-o", exe], exe))
    return exe


def coverage_guided(build, a, env, fuzzer, prop):
    """libFuzzer over the bytes the choices are made from; a failing input is confirmed and shrunk by the ordinary program."""
    seconds = float(a.get("fuzz_s") or 240)
    corpus, logs = os.path.join(build, "corpus"), []
    os.makedirs(corpus, exist_ok=True)
    rnd = random.Random(a["seed"])
    for i in range(200):
        with open(os.path.join(corpus, "seed%d" % i), "wb") as f:
            f.write(bytes(rnd.randrange(256) for _ in range(rnd.choice([30, 100, 300, 1000]))))
    procs = []
    for w in range(8):
        log = os.path.join(build, "fuzz%d.log" % w)
        logs.append(log)
        procs.append(subprocess.Popen(
            [fuzzer, corpus, "-seed=%d" % (a["seed"] * 8 + w + 1), "-max_total_time=%d" % seconds, "-max_len=4000", "-timeout=20", "-reload=1",
             "-rss_limit_mb=2500", "-print_final_stats=1", "-len_control=0", "-artifact_prefix=" + os.path.join(build, "crash%d-" % w), "-verbosity=1"],
            env=dict(env, ASAN_OPTIONS=ASAN + ":abort_on_error=1:handle_abort=1"), stdout=subprocess.DEVNULL, stderr=open(log, "w")))
    end = time.time() + seconds + 60
    failed = False
    while any(p.poll() is None for p in procs) and time.time() < end and not failed:
        failed = any(p.poll() not in (None, 0) for p in procs)
        time.sleep(0.5)
    for p in procs:
        if p.poll() is None:
            p.kill()
        p.wait()
    units, features, size = 0, 0, 0
    for log in logs:
        text = open(log, errors="replace").read()
        n = re.findall(r"number_of_executed_units: (\d+)", text) or re.findall(r"^#(\d+)", text, re.M)[-1:]
        units += int(n[0]) if n else 0
        ft = re.findall(r"cov: (\d+) ft: (\d+)", text)
        if ft:
            size = max(size, int(ft[-1][0]))
            features = max(features, int(ft[-1][1]))
    info = {"executions": units, "edges": size, "features": features, "corpus": len(os.listdir(corpus)), "seconds": seconds}
    rc = 0
    for crash in sorted(glob.glob(os.path.join(build, "crash*-*"))):
        if "slow-unit" in crash:
            continue
        choices = os.path.join(build, "choices.txt")
        subprocess.run([fuzzer, crash, "-rss_limit_mb=2500", "-timeout=25"], env=dict(env, PBT_DUMP=choices), stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        rc = subprocess.run(prop + ["--shrink", choices, "--out", build, "--tier", "thorough", "--seed", str(a["seed"])], env=env).returncode
        if rc:
            break
        print("an input of the coverage-guided search failed once and does not reproduce: " + crash)
    return info, rc


def known_findings():
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property="):
                out.append(line[len("finding: property="):].split(" ", 1))
    return out


def parse(argv):
    a = {"tier": os.environ.get("VERIF_TIER", "quick"), "seed": os.environ.get("VERIF_SEED", "1"), "replay": None, "cases": None,
         "workers": None, "budget": None, "fuzz_s": None}
    if not argv:
        print(__import__("__main__").__doc__)
        sys.exit(2)
    a["id"] = argv[0]
    i = 1
    while i < len(argv):
        a[argv[i].lstrip("-")] = argv[i + 1]
        i += 2
    if a["tier"] not in ("quick", "thorough"):
        a["tier"] = "quick"
    try:
        a["seed"] = int(a["seed"])
    except ValueError:
        a["seed"] = 1
    return a


def main(argv):
    import checks
    a = parse(argv)
    pid = a["id"]
    spec = checks.CHECKS[pid]
    t0 = time.time()
    build = os.path.join(ROOT, "build", pid)
    if not a["replay"]:
        shutil.rmtree(build, ignore_errors=True)
    os.makedirs(build, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="print_stacktrace=0")
    try:
        cmd = spec["build"](build, a)
    except BuildError as e:
        print(str(e))
        print("ERROR: the check could not be built")
        return 2
    built = time.time() - t0
    second = a.get("second")
    if a["replay"]:
        if second:
            cmd = second
        return subprocess.run(cmd + ["--replay", os.path.abspath(a["replay"]), "--out", build, "--tier", a["tier"]], env=env).returncode
    run = cmd + ["--seed", str(a["seed"]), "--tier", a["tier"], "--out", build]
    if a["tier"] == "thorough" and not a["budget"]:
        a["budget"] = "600"
    for k in ("cases", "workers", "budget"):
        if a[k]:
            run += ["--" + k, a[k]]
    runs = [run]
    if second:
        # a smaller search with other seeds under the address sanitizer
        runs.append(second + run[len(cmd):] + ["--divide", "10", "--seed", str(a["seed"] + 1000003)])
    results = []
    for r in runs:
        p = subprocess.run(r, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(p.stdout[-4000:], end="")
        if p.returncode == 3:
            # failed once and did not reproduce: believed when it fails again in a second search
            print("searching once more")
            p = subprocess.run(r, env=dict(env, PBT_INSIST="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(p.stdout[-4000:], end="")
        if p.returncode not in (0, 1):
            print("ERROR: the search ended with exit code %d" % p.returncode)
            return 3
        results.append(json.load(open(os.path.join(build, "result.json"))))
        if p.returncode:
            break
    res = results[0]
    for x in results[1:]:
        for k in ("evaluations", "discards", "nontrivial", "distinct_nontrivial"):
            res[k] += x[k]
        for k, v in x["labels"].items():
            res["labels"][k] = res["labels"].get(k, 0) + v
    fuzz = None
    rc = p.returncode
    violation = os.path.join(build, "violation.json")
    if rc == 0 and a["tier"] == "thorough" and spec.get("fuzz"):
        fuzz, rc = coverage_guided(build, a, env, spec["fuzz"](build), second or cmd)
    violations = []
    replay = None
    if rc == 1:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        replay = os.path.join(ROOT, "evidence", pid + ".violation.json")
        shutil.copy(violation, replay)
        v = json.load(open(violation))
        violations.append({"replay": replay, "message": v.get("message", ""), "description": v.get("description", "")[:3000]})
    cov = {
        "evaluations": res["evaluations"], "discards": res.get("discards", 0),
        "distinct_nontrivial": res["distinct_nontrivial"], "nontrivial": res["nontrivial"],
        "rule": res["rule"], "samples": res["samples"], "labels": res.get("labels", {}),
    }
    if fuzz:
        cov["coverage_guided"] = fuzz
    ev = {
        "property": pid, "tier": a["tier"], "seed": a["seed"], "level": "exploration", "coverage": cov,
        "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "build_s": round(built, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for prop, what in known_findings():
        if prop == pid:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if rc == 1:
        print(violations[0]["description"])
        print(violations[0]["message"])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    print("%s held: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" %
          (pid, res["evaluations"], res["distinct_nontrivial"], time.time() - t0, built))
    return 0
