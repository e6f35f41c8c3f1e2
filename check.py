#!/usr/bin/env python3
"""check.py PROPERTY: decide one property by simulation; tier and seed from the environment."""
import collections, concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time
from common import *

PLAN = {
    # tier: (catalogues of call sites, seconds of search in each)
    "quick": (2, 25),
    "thorough": (10, 150),
}
REAL = ("real: the code expanded from sscanf!/sscanf_unescaped!/sscanf_get_regex!/derive(FromScanf) of /repo's tree, "
        "sscanf's traits, types and errors, lazy_static, the regex crate, std's Once/Mutex/Condvar/thread code, glibc's pthreads")
STUB = ("simulated: futex, getrandom, clock_gettime, nanosleep, sched_yield, the allocator's failures, and all user code "
        "(conversions, mappers, defaults, input expressions, destructors)")
ASSUME = [
    "one thread runs at a time: reorderings of a weak memory model are not simulated",
    "the regex crate is trusted as the interpreter of the model's own pattern text",
    "preemption happens at control-flow edges and stores of sscanf and of the expanded call sites, at allocations and "
    "releases, user callbacks and futex calls; not between two instructions of std, lazy_static or regex that touch none of these",
    "sampled, not enumerated: a clean batch is evidence, not proof",
]


def stats(path, acc):
    for l in open(path):
        f = l.rstrip("\n").split("\t")
        if f[0] == "n":
            if f[1].startswith("max:"):
                acc["n"][f[1]] = max(acc["n"][f[1]], int(f[2]))
            else:
                acc["n"][f[1]] += int(f[2])
        else:
            acc[f[1]].add((acc["cat"], f[2]) if f[1] in ("site", "edge") else f[2])


def coverage(acc, wall, samples, catalogues, determinism):
    n = acc["n"]
    runs = n["runs"]
    search = max(n["milliseconds"], 1) / 1000
    return {
        "evaluations": runs,
        "distinct_nontrivial": len(acc["nontrivial"]),
        "rule": "one evaluation is one simulated execution of a generated workload under a generated schedule and fault "
                "sequence, in a process in which no call site has been used; it is non-trivial if at least one fault was "
                "injected or one thread preempted; two are distinct if their recorded histories differ",
        "samples": samples,
        "runs_per_hour_each_with_a_seed_of_its_own": int(runs * 3600 / search),
        "catalogues_of_call_sites": catalogues,
        "call_sites_used": len(acc["site"]),
        "distinct_histories": len(acc["digest"]),
        "distinct_schedules": len(acc["schedule"]),
        "schedule_measure": "hash over the sequence of (thread, its n-th scheduling point, next thread) of a run",
        "simulated_time_s": n["clock"] // 1_000_000_000,
        "scheduling_points_passed": n["steps"],
        "preemptions": n["preemptions"],
        "futex_waits": n["waits"],
        "longest_run_in_points": n["max:steps"],
        "calls": {k: v for k, v in sorted(n.items()) if k.startswith("calls")},
        "callbacks": n["callbacks"],
        "outcomes": {k[8:]: v for k, v in sorted(n.items()) if k.startswith("outcome:")},
        "faults_injected": {k[6:]: v for k, v in sorted(n.items()) if k.startswith("fault:")},
        "probes": {k[6:]: v for k, v in sorted(n.items()) if k.startswith("probe:")},
        "runs_with_any_deviation_from_the_model": n["runs with any deviation from the model"],
        "control_flow_edges_hit": len({e for e in acc["edge"]}),
        "control_flow_edges_total": n["edges total"],
        "determinism_sample": determinism,
        "components": [REAL, STUB],
    }


def determinism(dst, prop, seed, gen_seed, d):
    """the same runs in two processes with different numbers of workers"""
    a = [dst, "digests", "--property", prop, "--seed", str(seed), "--gen-seed", str(gen_seed)]
    n = "8" if prop in ("C11", "C23") else "64"
    x, y = (subprocess.run(a + ["--runs", n, "--workers", w, "--dir", d], capture_output=True, text=True).stdout.split("\n")
            for w in ("8", "3"))
    lines = [l for l in x if l]
    return {"runs": len(lines), "histories_that_differ_in_a_second_process": sum(p != q for p, q in zip(x, y)),
            "replays_of_a_logged_schedule_that_differ": sum(l.endswith(" 0") for l in lines)}


def sample(dst, prop, seed, i):
    r = subprocess.run([dst, "show", "--property", prop, "--seed", str(seed), "--index", str(i)], capture_output=True, text=True)
    l = [x[:300] for x in r.stdout.split("\n")]
    return l if len(l) < 40 else l[:25] + ["... %d more lines" % (len(l) - 30)] + l[-5:]


def main():
    prop = sys.argv[1]
    t0 = time.time()
    seed, tier = env_seed(), env_tier()
    ncat, secs = PLAN[tier]
    if os.environ.get("DST_SECS"):
        secs = int(os.environ["DST_SECS"])
    if os.environ.get("DST_CATALOGUES"):
        ncat = int(os.environ["DST_CATALOGUES"])
    os.makedirs(REPLAYS, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=(os.makedirs(BUILD, exist_ok=True), BUILD)[1])
    acc = collections.defaultdict(set)
    acc["n"] = collections.Counter()
    violations, samples, det, seeds = [], [], {}, []
    builder = concurrent.futures.ThreadPoolExecutor(1)

    def build(c):
        return builder.submit(build_sim, seed + 1000 * c, os.path.join(work, str(c)))

    try:
        ahead = build(0)
        for c in range(ncat):
            gen_seed = seed + 1000 * c
            seeds.append(gen_seed)
            acc["cat"] = c
            try:
                sites = ahead.result()
                if c + 1 < ncat:
                    # the next one, while this one is searched
                    ahead = build(c + 1)
            except BuildError as e:
                if not e.sites or prop != "C01":
                    sys.stderr.write(e.log[-6000:])
                    print("the simulator does not build")
                    return 2
                # the library itself compiles, but rejects call sites the documentation allows
                path = os.path.join(REPLAYS, "%s-%d-compile.replay" % (prop, gen_seed))
                with open(path, "w") as f:
                    f.write("compile\ngen-seed %d\n# valid call sites are rejected:\n" % gen_seed)
                    f.write("".join("# %s\n" % l for l in e.log[:8000].split("\n")))
                violations.append(path)
                print("valid call sites do not compile")
                break
            dst = os.path.join(work, str(c), "dst")
            args = ["--property", prop, "--seed", str(seed), "--gen-seed", str(gen_seed), "--sites", str(int(sites, 16)),
                    "--dir", work]
            start, left = 0, secs
            while left > 0:
                st = os.path.join(work, "stats")
                t1 = time.time()
                r = subprocess.run([dst, "search"] + args + ["--start", str(start), "--runs", "100000000", "--secs", str(left),
                                   "--stats", st], capture_output=True, text=True)
                left -= time.time() - t1
                sys.stderr.write(r.stderr)
                if os.path.exists(st):
                    stats(st, acc)
                if r.returncode == 0:
                    break
                if r.returncode != 1:
                    print("the simulator failed (%d)" % r.returncode)
                    return 2
                m = re.search(r"^found (\d+)\ndetail (.*)\nreplay (.*)$", r.stdout, re.M)
                path = os.path.join(REPLAYS, os.path.basename(m.group(3)))
                shutil.copy(m.group(3), path)
                print(m.group(2)[:2000])
                # in a fresh process
                codes = [subprocess.run([dst, "replay", path, "-q"], capture_output=True).returncode for _ in range(2)]
                if 1 in codes or 4 in codes:
                    if codes != [1, 1]:
                        print("note: the replay does not give the very same history: %s" % codes)
                    violations.append(path)
                    break
                print("not reproduced by its replay file, and therefore not reported: " + path)
                start = int(m.group(1)) + 1
            if c == 0:
                samples = [sample(dst, prop, seed, i) for i in (0, 1)]
                det = determinism(dst, prop, seed, gen_seed, work)
            if violations:
                break
    finally:
        builder.shutdown()
        shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    write_evidence(prop, tier, seed, "exploration", coverage(acc, wall, samples, seeds, det), wall, ASSUME, len(violations))
    for f in known_findings(prop):
        print("KNOWN-FINDING: " + f)
    for v in violations:
        print("VIOLATION property=%s replay=%s" % (prop, v))
    if not violations:
        print("%s: %d runs, %d non-trivial, no violation" % (prop, acc["n"]["runs"], len(acc["nontrivial"])))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(guarded(main))
