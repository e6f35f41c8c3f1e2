"""Shared by the checks: building the simulator from /repo's working tree, evidence files."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TOOLCHAIN = "1.90.0"
TARGET = os.path.join(VERIF, "target")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")


def env_seed():
    return int(os.environ.get("VERIF_SEED") or 1)


def env_tier():
    t = os.environ.get("VERIF_TIER") or "quick"
    return t if t in ("quick", "thorough") else "quick"


def cargo_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e.setdefault("HOME", "/root")
    e["PATH"] = os.path.join(e["HOME"], ".cargo/bin") + ":" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


def tree_hash():
    """of everything in /repo that can influence the library"""
    h = hashlib.sha256()
    for top in ("Cargo.toml", "src", "sscanf_macro/Cargo.toml", "sscanf_macro/src", "Readme.md"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, ds, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def write_if_new(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


class BuildError(Exception):
    def __init__(self, log, sites):
        super().__init__(log)
        self.log, self.sites = log, sites


def forget_stale_builds(env):
    """cargo looks at times of modification only, which copied trees do not keep reliably"""
    stamp = os.path.join(TARGET, "repo.hash")
    now = tree_hash()
    if os.path.exists(stamp) and open(stamp).read() == now:
        return
    if os.path.isdir(TARGET):
        subprocess.run(["cargo", "clean", "-q", "--offline", "-p", "sscanf", "-p", "sscanf_macro", "-p", "sites_dbg",
                        "-p", "sites_rel", "-p", "dst"], cwd=os.path.join(VERIF, "sim"), env=env, capture_output=True)
    os.makedirs(TARGET, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)


def build_sim(gen_seed, into):
    """generate the call sites of a seed, build the simulator, copy it to `into`"""
    with Lock():
        env = cargo_env({"CARGO_TARGET_DIR": TARGET, "RUSTC_WRAPPER": os.path.join(VERIF, "sim/rustc.sh")})
        tmp = os.path.join(BUILD, "sites.new")
        subprocess.run([sys.executable, os.path.join(VERIF, "gen/gen_sites.py"), str(gen_seed), tmp], check=True)
        text = open(tmp).read()
        write_if_new(os.path.join(BUILD, "sites.rs"), text)
        forget_stale_builds(env)
        sim = os.path.join(VERIF, "sim")
        r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=sim, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            lib = subprocess.run(["cargo", "build", "--offline", "--locked", "-p", "sscanf"], cwd=sim, env=env,
                                 capture_output=True, text=True)
            raise BuildError(r.stderr, lib.returncode == 0)
        os.makedirs(into, exist_ok=True)
        shutil.copy2(os.path.join(TARGET, "debug/dst"), os.path.join(into, "dst"))
        return hashlib.sha256(text.encode()).hexdigest()[:15]


def write_evidence(prop, tier, seed, level, coverage, wall, assumptions, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
        f.write("\n")


def known_findings(prop):
    """lines `finding: property=<id> key=<class or text> <what fails>` of known_findings.txt"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        if l.startswith("finding: property=%s " % prop):
            out.append(l[len("finding: "):].strip())
    return out


def guarded(main):
    """an exception is an error of the check, never an answer"""
    try:
        return main()
    except Exception:
        import traceback
        traceback.print_exc()
        return 2
