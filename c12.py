#!/usr/bin/env python3
"""C12: the compiler, with sscanf's macros loaded into it, run again and again as a simulated
process: hash seeds, clock, process id, memory layout, environment, working directory and the
history of expansions before an item are all chosen from a seed."""
import concurrent.futures as cf, ctypes, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from common import *
sys.path.insert(0, os.path.join(VERIF, "expand"))
import items as gen, weird

PROP = "C12"
SECS = {"quick": 45, "thorough": 900}
PER_PROGRAM = {"quick": 48, "thorough": 64}
LIBC = ctypes.CDLL(None)
ENV_POOL = [("HOME", ["/", "/nonexistent"]), ("LANG", ["C", "de_DE.UTF-8", "tr_TR.UTF-8"]), ("TZ", ["UTC", "Asia/Tokyo"]),
            ("CARGO_PKG_NAME", ["a", "other-crate"]), ("CARGO_PKG_VERSION", ["0.0.1", "9.9.9"]),
            ("CARGO_MANIFEST_DIR", ["/nonexistent/x", "/"]), ("OUT_DIR", ["/nonexistent/out"]), ("PROFILE", ["debug", "release"]),
            ("DEBUG", ["0", "1"]), ("USER", ["root", "nobody"]), ("COLUMNS", ["40", "200"]), ("TERM", ["dumb", "xterm-256color"]),
            ("NO_COLOR", ["1"]), ("RUST_BACKTRACE", ["1", "full"]), ("CARGO", ["/bin/cargo"]), ("CARGO_PRIMARY_PACKAGE", ["1"]),
            ("CARGO_CRATE_NAME", ["a"]), ("HOSTNAME", ["h1", "h2"]), ("TMPDIR", ["/tmp"]), ("RUST_MIN_STACK", ["8388608"])]


class Lab:
    def __init__(self, work):
        self.work = work
        with Lock():
            env = cargo_env({"CARGO_TARGET_DIR": TARGET, "RUSTC_WRAPPER": os.path.join(VERIF, "sim/rustc.sh")})
            forget_stale_builds(env)
            r = subprocess.run(["cargo", "build", "--offline", "--locked", "-p", "sscanf", "--message-format=json"],
                               cwd=os.path.join(VERIF, "sim"), env=env, capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError(r.stderr, False)
            files = []
            for l in r.stdout.splitlines():
                m = json.loads(l)
                if m.get("reason") == "compiler-artifact":
                    files += m["filenames"]
            deps = os.path.join(work, "deps")
            os.makedirs(deps)
            for f in files:
                if f.endswith((".rlib", ".so")):
                    shutil.copy2(f, deps)
            self.rlib = glob.glob(os.path.join(deps, "libsscanf.rlib"))[0]
            self.deps = deps
        root = subprocess.run(["rustc", "--print", "sysroot"], env=cargo_env(), capture_output=True, text=True).stdout.strip()
        self.rustc = os.path.join(root, "bin/rustc")
        self.shim = os.path.join(work, "shim.so")
        src = [os.path.join(VERIF, "expand", f) for f in ("shim.c", "watch.c")]
        subprocess.run(["cc", "-O1", "-fno-builtin", "-shared", "-fPIC", "-o", self.shim] + src + ["-ldl"], check=True)
        self.asked = 0

    def compile(self, cfg, watch=False):
        """cfg: items (list of sources), hash_seed, faults, env, cwd, thread; gives what the process said and where items start"""
        d = tempfile.mkdtemp(dir=self.work)
        cwd = os.path.join(d, *cfg["cwd"])
        os.makedirs(cwd)
        lines = gen.PRELUDE.rstrip("\n").split("\n")
        at = []
        for i, s in enumerate(cfg["items"]):
            lines.append("mod item_%04d { use crate::prelude::*;" % i)
            at.append(len(lines) + 1)
            lines.append(s)
            lines.append("}")
        with open(os.path.join(cwd, "a.rs"), "w") as f:
            f.write("\n".join(lines) + "\nfn main() {}\n")
        env = {"PATH": "/usr/bin:/bin", "RUSTC_BOOTSTRAP": "1", "LD_PRELOAD": self.shim, "EXPAND_SEED": str(cfg["hash_seed"]),
               "EXPAND_FAULTS": str(cfg["faults"])}
        env.update(cfg["env"])
        if watch:
            env["EXPAND_WATCH"] = "1"
        args = [self.rustc, "--edition", "2021", "-Zunpretty=expanded", "--error-format=json", "--extern", "sscanf=" + self.rlib,
                "-L", "dependency=" + self.deps]
        if cfg["thread"]:
            args.append("-Zproc-macro-execution-strategy=cross-thread")
        try:
            p = subprocess.run(args + ["a.rs"], cwd=cwd, env=env, capture_output=True, timeout=120,
                               preexec_fn=lambda: LIBC.personality(0x0040000))
        except subprocess.TimeoutExpired:
            return None
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return p, at

    def run(self, cfg):
        """gives [(expansion, diagnostics)] per item"""
        r = self.compile(cfg)
        if r is None:
            return None
        p, at = r
        out = p.stdout.decode("utf8", "replace")
        exp = [None] * len(at)
        for part in re.split(r"^(?=mod item_\d{4} \{)", out, flags=re.M)[1:]:
            k = int(part[9:13])
            body = part.split("\n", 1)[1]
            if k == len(at) - 1:
                body = body.split("\nfn main()")[0]
            exp[k] = body.rstrip()
        diags = [[] for _ in at]
        start = {l: i for i, l in enumerate(at)}

        def rel(sp):
            while sp.get("expansion") and sp["line_start"] not in start:
                sp = sp["expansion"]["span"]
            return [sp["line_start"], sp["column_start"], sp["column_end"], sp["is_primary"], sp["label"]]

        for l in p.stderr.decode("utf8", "replace").splitlines():
            if not l.startswith("{"):
                self.asked += l.startswith("asked for its environment")
                continue
            m = json.loads(l)
            # only what the macros say themselves
            if m.get("code") or not m.get("spans"):
                continue
            sps = [rel(s) for s in m["spans"] if s["file_name"] == "a.rs"]
            own = [s for s in sps if s[0] in start]
            if not own:
                continue
            i = start[own[0][0]]
            kids = [[c["level"], c["message"]] for c in m["children"]]
            diags[i].append([m["level"], m["message"], [s[1:] for s in own], kids])
        return [(exp[i], diags[i]) for i in range(len(at))]


def key(res):
    return hashlib.sha256(json.dumps(res).encode()).hexdigest()[:16]


def config(seed, n_items, run):
    """the choices of one simulated compiler process; items are given by index"""
    r = random.Random("%d %d" % (seed, run))
    order = list(range(n_items))
    mode = r.randrange(4)
    if mode != 0:
        r.shuffle(order)
    if mode >= 2:
        order = order[: r.randint(2, n_items)]
        for _ in range(r.randrange(n_items // 2)):
            order.insert(r.randint(0, len(order)), r.choice(order))
    if r.random() < 0.04:
        # a very long program, of all items or of a few
        some = order if r.random() < 0.5 else [r.randrange(n_items) for _ in range(r.randint(1, 6))]
        order = [r.choice(some) for _ in range(r.choice([200, 500, 1200]))]
    env = {k: r.choice(v) for k, v in r.sample(ENV_POOL, r.randint(0, 6))}
    return {"order": order, "hash_seed": r.getrandbits(62), "faults": r.choice([0, 0, 0, 1, 2, 3]), "env": env,
            "cwd": ["d%d" % r.randrange(100) for _ in range(r.randint(1, 4))], "thread": r.random() < 0.2}


def concrete(cfg, its):
    c = {k: v for k, v in cfg.items() if k != "order"}
    c["items"] = [its[i] for i in cfg["order"]]
    return c


def differ(lab, a, b, target):
    """do two configurations expand the item `target` differently (in any of its occurrences)?"""
    ra, rb = lab.run(a), lab.run(b)
    if ra is None or rb is None:
        return None
    fa = [r for s, r in zip(a["items"], ra) if s == target]
    fb = [r for s, r in zip(b["items"], rb) if s == target]
    for x in fa + fb:
        if x != fa[0]:
            return (fa[0], x)
    return None


def minimise(lab, a, b, target, secs=60):
    end = time.time() + secs
    def ok(x, y):
        return time.time() < end and target in x["items"] and target in y["items"] and differ(lab, x, y, target)
    def tryset(a, b, changes):
        x, y = dict(a, **changes[0]), dict(b, **changes[1])
        return (x, y) if ok(x, y) else (a, b)
    for f in ("env", "cwd", "faults", "thread"):
        v = {"env": {}, "cwd": ["d"], "faults": 0, "thread": False}[f]
        a, b = tryset(a, b, ({f: v}, {f: v}))
    a, b = tryset(a, b, ({"items": [target]}, {"items": [target]}))
    a, b = tryset(a, b, ({}, {"items": [target]}))
    a, b = tryset(a, b, ({"items": [target]}, {}))
    a, b = tryset(a, b, ({}, {"hash_seed": a["hash_seed"]}))
    for which in (0, 1):
        cur = (a, b)[which]
        chunk = len(cur["items"]) // 2
        while chunk:
            i = 0
            while i < len(cur["items"]):
                c = dict(cur, items=cur["items"][:i] + cur["items"][i + chunk:])
                if ok(*((c, b) if which == 0 else (a, c))):
                    cur = c
                else:
                    i += chunk
                a, b = (cur, b) if which == 0 else (a, cur)
            chunk //= 2
    return a, b


def diff_text(x, y):
    import difflib
    if x[1] != y[1]:
        return ["diagnostics:"] + [json.dumps(x[1])[:600], json.dumps(y[1])[:600]]
    return list(difflib.unified_diff((x[0] or "").split("\n"), (y[0] or "").split("\n"), "first", "second", lineterm="", n=1))[:40]


def replay(path):
    text = open(path).read()
    d = json.loads(text[text.index("\n{\n") + 1:])
    work = tempfile.mkdtemp(prefix="run-", dir=(os.makedirs(BUILD, exist_ok=True), BUILD)[1])
    try:
        r = differ(Lab(work), d["a"], d["b"], d["item"])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if not r:
        print("not reproduced")
        return 0
    print(d["item"])
    print("\n".join(diff_text(*r)))
    print("VIOLATION property=%s replay=%s" % (PROP, path))
    return 1


def main():
    t0 = time.time()
    seed, tier = env_seed(), env_tier()
    secs = int(os.environ.get("DST_SECS") or SECS[tier])
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    seen = {}  # item -> (result, configuration)
    n = dict(runs=0, expansions=0, failing=0, repeated=0, reordered=0, eintr=0, short=0, cross_thread=0, env=0, timeouts=0)
    keys, hist, found, samples = set(), set(), None, []
    rerun = [0, 0]
    try:
        try:
            lab = Lab(work)
        except BuildError as e:
            sys.stderr.write(e.log[-4000:])
            return 2
        t1 = time.time()
        batch = 0
        with cf.ThreadPoolExecutor(8) as ex:
            while time.time() - t1 < secs and not found:
                its = gen.corpus("%d %d" % (seed, batch), PER_PROGRAM[tier])
                r = random.Random("%d %d via" % (seed, batch))
                its = [weird.via(r, i, True) if r.random() < 0.1 else i for i in its]
                cfgs = [config(seed * 1000 + batch, len(its), k) for k in range(40)]
                cfgs.append(cfgs[3])  # the same process again
                results = list(ex.map(lambda c: lab.run(concrete(c, its)), cfgs))
                rerun[0] += 1
                rerun[1] += results[3] != results[-1]
                for c, res in zip(cfgs[:-1], results):
                    if res is None:
                        n["timeouts"] += 1
                        continue
                    n["runs"] += 1
                    hist.add(key([c["order"], c["hash_seed"]]))
                    n["eintr"] += c["faults"] & 1
                    n["short"] += c["faults"] >> 1
                    n["cross_thread"] += c["thread"]
                    n["env"] += bool(c["env"])
                    n["repeated"] += len(set(c["order"])) < len(c["order"])
                    n["reordered"] += c["order"] != sorted(c["order"])
                    for pos, (i, r) in enumerate(zip(c["order"], res)):
                        n["expansions"] += 1
                        n["failing"] += bool(r[1])
                        keys.add((its[i], tuple(c["order"][max(0, pos - 1):pos]), c["hash_seed"]))
                        if its[i] not in seen:
                            seen[its[i]] = (r, concrete(c, its))
                        elif seen[its[i]][0] != r and not found:
                            found = (its[i], seen[its[i]][1], concrete(c, its))
                if not samples:
                    samples = [{"item": its[i], "macro_diagnostics": seen[its[i]][0][1], "expansion": (seen[its[i]][0][0] or "")[:400]}
                               for i in cfgs[0]["order"][:3]]
                batch += 1
        path = None
        if found:
            item, a, b = found
            # every process is a function of its configuration; anything else says nothing about the macros
            if differ(lab, a, b, item):
                a, b = minimise(lab, a, b, item)
                d = differ(lab, a, b, item)
                path = os.path.join(REPLAYS, "C12-%d-%d.replay" % (seed, batch))
                with open(path, "w") as f:
                    f.write("expand\n# %s\n" % item)
                    f.write("".join("# %s\n" % l for l in (diff_text(*d) if d else [])))
                    json.dump({"item": item, "a": a, "b": b}, f, indent=1)
                print("expanded differently: " + item)
                print("\n".join(diff_text(*d) if d else []))
                r = subprocess.run([sys.executable, os.path.join(VERIF, "replay.py"), path], capture_output=True, text=True)
                if r.returncode != 1 or "VIOLATION" not in r.stdout:
                    print("note: not reproduced by its replay file in a fresh process")
                    path = None
            else:
                print("a difference that did not show again was ignored: " + item)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    search = time.time() - t1
    write_evidence(PROP, tier, seed, "exploration", {
        "evaluations": n["expansions"],
        "distinct_nontrivial": len(keys),
        "rule": "one evaluation is one expansion of a generated item in a simulated compiler process, compared with every other "
                "expansion of that item; distinct by (item, item expanded just before it, hash seed of the process); all are "
                "non-trivial in that no process but the first few has the hash seed and history of another",
        "samples": samples,
        "compiler_processes": n["runs"],
        "processes_per_hour_each_with_a_seed_of_its_own": int(n["runs"] * 3600 / max(search, 1)),
        "simulated_time": "none: the code has no timers; the clock it could read starts at a seeded time",
        "items": len(seen),
        "items_with_diagnostics": sum(bool(v[0][1]) for v in seen.values()),
        "expansions_that_fail": n["failing"],
        "distinct_histories": len(hist),
        "history_measure": "sequence of items expanded and hash seed of the process",
        "faults_injected": {"other hash seed, clock, process id and memory layout": n["runs"], "getrandom interrupted (EINTR)": n["eintr"],
                            "getrandom short": n["short"], "environment variables asked for by the macros": lab.asked, "other environment": n["env"], "reordered history": n["reordered"],
                            "items repeated": n["repeated"], "macros on a thread of their own": n["cross_thread"]},
        "same_process_run_twice": {"pairs": rerun[0], "that differ": rerun[1]},
        "timeouts": n["timeouts"],
        "components": ["real: rustc %s and the proc macros built from /repo's tree" % TOOLCHAIN,
                       "simulated: getrandom, clock_gettime, getpid, address space layout (LD_PRELOAD, ASLR off), environment, working directory"],
    }, wall, ["expansions are compared as printed by rustc (-Zunpretty=expanded), without span information",
              "only diagnostics that the macros emit themselves are compared, with positions relative to the item",
              "sampled, not enumerated"], int(bool(path)))
    for f in known_findings(PROP):
        print("KNOWN-FINDING: " + f)
    if path:
        print("VIOLATION property=%s replay=%s" % (PROP, path))
        return 1
    print("C12: %d processes, %d expansions of %d items, no difference" % (n["runs"], n["expansions"], len(seen)))
    return 0


if __name__ == "__main__":
    sys.exit(guarded(main))
