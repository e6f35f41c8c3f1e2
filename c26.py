#!/usr/bin/env python3
"""C26: the compiler with sscanf's macros loaded into it as a simulated process, as for C12; what is
watched is what the macros do besides giving their expansion: libc calls of theirs that affect or ask
something outside of the process, panics, crashes, and expansions without an end."""
import concurrent.futures as cf, json, os, random, re, shutil, sys, tempfile, time
from common import *
import c12
import items as gen, weird

PROP = "C26"
SECS = {"quick": 40, "thorough": 900}


CANARY = 'fn f() { let _ = sscanf::sscanf!("x", "{"); }'


def flaws(lab, cfg, count=None):
    """what the macros did wrong in this process: sorted list of texts"""
    r = lab.compile(dict(cfg, items=cfg["items"] + [CANARY]), watch=True)
    if r is None:
        return ["an expansion did not come to an end"]
    p, at = r
    out = set()
    for l in p.stderr.decode("utf8", "replace").splitlines():
        if l.startswith("EFFECT "):
            out.add("a macro called %s" % l[7:])
        elif l.startswith("{"):
            m = json.loads(l)
            if count is not None and any(s["line_start"] == at[-1] for s in m["spans"]):
                count["expanded"] += 1
                count = None
            if re.search("(proc.macro|attribute|derive).* panicked", m["message"]):
                out.add("a macro panicked")
    if p.returncode < 0:
        out.add("the compiler was killed by signal %d" % -p.returncode)
    return sorted(out)


def minimise(lab, cfg, flaw, secs=90):
    end = time.time() + secs

    def still(c):
        return time.time() < end and flaw in flaws(lab, c)

    for f, v in (("env", {}), ("cwd", ["d"]), ("faults", 0), ("thread", False)):
        c = dict(cfg, **{f: v})
        if still(c):
            cfg = c
    with cf.ThreadPoolExecutor(8) as ex:
        alone = [dict(cfg, items=[i]) for i in dict.fromkeys(cfg["items"])]
        for c, ok in zip(alone, list(ex.map(still, alone))):
            if ok:
                return c
    n = len(cfg["items"]) // 2
    while n:
        i = 0
        while i < len(cfg["items"]):
            c = dict(cfg, items=cfg["items"][:i] + cfg["items"][i + n:])
            if c["items"] and still(c):
                cfg = c
            else:
                i += n
        n //= 2
    return cfg


def replay(path):
    text = open(path).read()
    d = json.loads(text[text.index("\n{\n") + 1:])
    work = tempfile.mkdtemp(prefix="run-", dir=(os.makedirs(BUILD, exist_ok=True), BUILD)[1])
    try:
        f = flaws(c12.Lab(work), d["process"])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if d["flaw"] not in f:
        print("not reproduced")
        return 0
    print("\n".join(d["process"]["items"]))
    print(d["flaw"])
    print("VIOLATION property=%s replay=%s" % (PROP, path))
    return 1


def corpus(seed, k):
    r = random.Random("%d %d" % (seed, k))
    its = [weird.via(r, i) if r.random() < 0.2 else i for i in gen.corpus("%d %d w" % (seed, k), 24)]
    its += [weird.item(r).replace("\n", "\\n") for _ in range(40)]
    return its


def main():
    t0 = time.time()
    seed, tier = env_seed(), env_tier()
    secs = int(os.environ.get("DST_SECS") or SECS[tier])
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    n = dict(processes=0, expanded=0, expansions=0, repeated=0, eintr=0, short=0, cross_thread=0, env=0, ignored=0)
    items, shapes, path, samples = set(), set(), None, []
    try:
        try:
            lab = c12.Lab(work)
        except BuildError as e:
            sys.stderr.write(e.log[-4000:])
            return 2
        t1 = time.time()

        def one(k):
            its = corpus(seed, k)
            cfg = c12.concrete(c12.config(seed * 1000 + 7, len(its), k), its)
            cfg["items"] = cfg["items"][:300]
            return cfg, flaws(lab, cfg, n)

        k, found = 0, None
        with cf.ThreadPoolExecutor(8) as ex:
            while time.time() - t1 < secs and not found:
                for cfg, f in ex.map(one, range(k, k + 32)):
                    n["processes"] += 1
                    n["expansions"] += len(cfg["items"])
                    items.update(cfg["items"])
                    shapes.update((hash(a), hash(b)) for a, b in zip(cfg["items"], cfg["items"][1:]))
                    n["repeated"] += len(set(cfg["items"])) < len(cfg["items"])
                    n["eintr"] += cfg["faults"] & 1
                    n["short"] += cfg["faults"] >> 1
                    n["cross_thread"] += cfg["thread"]
                    n["env"] += bool(cfg["env"])
                    samples = samples or cfg["items"][:4]
                    if f and not found:
                        found = (cfg, f[0])
                k += 32
        if found:
            cfg, flaw = found
            if flaw in flaws(lab, cfg):
                cfg = minimise(lab, cfg, flaw)
                path = os.path.join(REPLAYS, "C26-%d.replay" % seed)
                with open(path, "w") as f:
                    f.write("effect\n# %s\n" % flaw)
                    json.dump({"flaw": flaw, "process": cfg}, f, indent=1)
                print("\n".join(cfg["items"])[:2000])
                print(flaw)
                if flaw not in flaws(lab, cfg):
                    print("note: not reproduced by its replay file")
                    path = None
            else:
                n["ignored"] += 1
                print("ignored, as it did not show again: " + flaw)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    write_evidence(PROP, tier, seed, "exploration", {
        "evaluations": n["expansions"],
        "distinct_nontrivial": len(items),
        "rule": "one evaluation is one expansion of a generated item in a simulated compiler process; distinct by the item; items are "
                "derives and macro calls, valid, with mistakes, and made of random tokens, texts and types",
        "samples": samples,
        "compiler_processes": n["processes"],
        "compiler_processes_that_reached_the_last_item": n["expanded"],
        "processes_per_hour_each_with_a_seed_of_its_own": int(n["processes"] * 3600 / max(time.time() - t1, 1)),
        "simulated_time": "none: the code has no timers",
        "distinct_histories": len(shapes),
        "history_measure": "pairs of items expanded one after the other",
        "faults_injected": {"getrandom interrupted (EINTR)": n["eintr"], "getrandom short": n["short"], "other environment": n["env"],
                            "items repeated": n["repeated"], "macros on a thread of their own": n["cross_thread"]},
        "findings_that_did_not_show_again": n["ignored"],
        "components": ["real: rustc %s and the proc macros built from /repo's tree" % TOOLCHAIN,
                       "simulated: getrandom, clock_gettime, getpid, address space layout (LD_PRELOAD, ASLR off), environment, working directory; "
                       "libc calls of the macros that affect or ask something outside of the process are reported and not carried out"],
    }, wall, ["calls are attributed by their return address, in the library of the macros", "sampled, not enumerated"], int(bool(path)))
    for f in known_findings(PROP):
        print("KNOWN-FINDING: " + f)
    if path:
        print("VIOLATION property=%s replay=%s" % (PROP, path))
        return 1
    print("C26: %d processes, %d expansions of %d items, nothing but expansions" % (n["processes"], n["expansions"], len(items)))
    return 0


if __name__ == "__main__":
    sys.exit(guarded(main))
