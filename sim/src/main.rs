mod check;
mod exec;
mod gen;
mod mini;
mod replay;

use check::Violation;
use dstcore::hist::{self, tag};
use dstcore::model::{Catalogue, Fs};
use dstcore::rng::{mix, Rng};
use dstcore::sched::Decision;
use dstcore::work::{Fault, Mode, Run};
use exec::{simulate, Done, Exit, Sites};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: dstcore::alloc::SimAlloc = dstcore::alloc::SimAlloc;

static SITES: Sites = Sites { dbg: sites_dbg::FNS, rel: sites_rel::FNS };

struct Env {
    cat: Catalogue,
    costs: Vec<u64>,
}
impl Env {
    fn new() -> Env {
        let cat = Catalogue::new(sites_dbg::DEFS);
        let costs: Vec<u64> = (0..cat.sites.len())
            .map(|i| {
                if cat.sites[i].bad {
                    return 1 << 40;
                }
                // what compiling this pattern allocates
                let before = dstcore::alloc::total();
                cat.regex(i);
                dstcore::alloc::total() - before
            })
            .collect();
        let bounds: Vec<(u64, u64)> = costs.iter().map(|c| check::bounds(*c)).collect();
        dstcore::work::set_bounds(bounds.leak());
        Env { cat, costs }
    }
    fn check(&self, run: &Run, d: &Done) -> Vec<Violation> {
        check::check(&self.cat, &self.costs, run, d)
    }
}

// ---- which violations break which property ----------------------------------------------------
/// the injected thing a property is about
fn relevant(prop: &str, f: &Fault) -> bool {
    match prop {
        "C03" => matches!(f, Fault::Panic(_)),
        "C08" => matches!(f, Fault::Drift(_)),
        "C09" => matches!(f, Fault::Nested(_) | Fault::DropNested(_)),
        "C15" => *f == Fault::Stall,
        "C25" => matches!(f, Fault::Render(_)),
        _ => false,
    }
}
/// the run without it
fn control(env: &Env, prop: &str, run: &Run) -> Option<Run> {
    let mut r = run.clone();
    for o in r.ops.iter_mut() {
        o.faults.retain(|f| !relevant(prop, &f.1));
        if prop == "C13" {
            o.oom = None;
        }
    }
    if prop == "C04" {
        for t in r.threads.iter_mut() {
            t.ops.retain(|o| !env.cat.sites[run.ops[*o as usize].site].bad);
            t.exit_op = t.exit_op.filter(|o| !env.cat.sites[run.ops[*o as usize].site].bad);
        }
        for o in r.ops.iter_mut() {
            o.faults.retain(|f| match f.1 {
                Fault::Nested(n) | Fault::DropNested(n) => !env.cat.sites[run.ops[n as usize].site].bad,
                _ => true,
            });
        }
    }
    if prop == "C09" {
        for t in r.threads.iter_mut() {
            t.exit_op = None;
        }
    }
    (r != *run).then_some(r)
}
#[derive(PartialEq)]
enum Blame {
    No,
    Yes,
    /// only if the run without the injected thing does not show it
    IfCaused,
}
fn blame(env: &Env, prop: &str, v: &Violation, run: &Run) -> Blame {
    use Blame::*;
    let c = v.class;
    let stuck = matches!(c, "deadlock" | "hang" | "crash");
    let wrong = matches!(c, "result" | "false-error" | "false-value" | "error-kind");
    let op = v.op.map(|o| &run.ops[o]);
    let yes = |b: bool| if b { Yes } else { No };
    match prop {
        "C01" => yes(wrong || stuck || c == "unexpected-panic"),
        "C02" => yes(c.starts_with("regex-") || stuck || (c == "unexpected-panic" && op.is_some_and(|o| o.mode == Mode::GetRegex))),
        "C03" => match c {
            "panic-swallowed" | "panic-payload" | "unexpected-panic" => Yes,
            "drift" | "bad-noloud" => No,
            _ => IfCaused,
        },
        "C04" => match c {
            "bad-noloud" => Yes,
            _ => IfCaused,
        },
        "C05" => yes(c == "cbseq"),
        "C06" => yes(matches!(c, "chain" | "error-kind" | "false-value" | "false-error")),
        "C07" => yes(matches!(c, "tok" | "crash")),
        "C08" => match c {
            "drift" => Yes,
            "cbseq" if op.is_some_and(|o| !o.rel && o.faults.iter().any(|f| matches!(f.1, Fault::Drift(_)))) => Yes,
            _ => IfCaused,
        },
        "C09" => IfCaused,
        "C10" => yes(matches!(c, "view" | "held" | "result" | "crash")),
        "C11" => yes(c == "mem"),
        "C22" => yes(c == "effect"),
        "C23" => yes(c == "slow"),
        "C24" => yes(c == "waits" || (matches!(c, "deadlock" | "hang") && mini::live_ops(run).iter().map(|o| &run.ops[*o]).all(|o| o.mode == Mode::FromStr || run.warm.contains(&(o.site, o.rel))))),
        "C25" => if c == "render" { Yes } else { IfCaused },
        "C13" => match c {
            "blocked-by-stall" => No,
            _ => IfCaused,
        },
        "C14" => {
            let plain = op.is_some_and(|o| o.mode == Mode::FromStr && env.cat.sites[o.site].from_str == Fs::FromStr);
            yes(c == "pair" || (plain && (wrong || matches!(c, "chain" | "cbseq" | "unexpected-panic" | "panic-swallowed" | "panic-payload"))))
        }
        "C15" => match c {
            "blocked-by-stall" => Yes,
            "deadlock" | "hang" => IfCaused,
            _ => No,
        },
        _ => No,
    }
}
/// the violations of `prop` among those found
fn mine(env: &Env, prop: &str, run: &Run, plan: Option<&[Decision]>, vs: Vec<Violation>, only: Option<&str>) -> Vec<Violation> {
    let mut out = vec![];
    let mut base: Option<Vec<Violation>> = None;
    for v in vs {
        if only.is_some_and(|c| c != v.class) {
            continue;
        }
        match blame(env, prop, &v, run) {
            Blame::No => {}
            Blame::Yes => out.push(v),
            Blame::IfCaused => {
                let Some(c) = control(env, prop, run) else { continue };
                let b = base.get_or_insert_with(|| {
                    // whatever the schedule: several seeds
                    let mut all = env.check(&c, &simulate(&SITES, &c, plan));
                    for k in 1..4u64 {
                        let mut c2 = c.clone();
                        c2.sched.seed = mix(c.sched.seed ^ k);
                        all.extend(env.check(&c2, &simulate(&SITES, &c2, None)));
                    }
                    all
                });
                if !b.iter().any(|x| x.class == v.class) {
                    out.push(v);
                }
            }
        }
    }
    out
}

/// the run of an index, complete with what has to be measured first
fn prepare(env: &Env, prop: &str, seed: u64, idx: u64) -> Run {
    let mut run = gen::generate(&env.cat, prop, seed, idx);
    if gen::profile(prop).oom {
        let mut rng = Rng::new(mix(seed ^ mix(idx ^ 0xA110C)));
        let d = simulate(&SITES, &run, None);
        let recs = check::records(&run, &d);
        let cand: Vec<(usize, u64)> = recs
            .iter()
            .enumerate()
            .filter_map(|(i, r)| {
                let n = r.ret.as_ref().map(|x| x.2).or(r.regex.as_ref().map(|x| x.2)).unwrap_or(0);
                (n > 0).then_some((i, n))
            })
            .collect();
        if !cand.is_empty() {
            let (i, n) = *rng.pick(&cand);
            // early and late allocations as often as those in the middle of a compilation
            let at = match rng.below(4) {
                0 => 1 + rng.below((n as usize).min(12)),
                1 => n as usize - rng.below((n as usize).min(12)),
                _ => 1 + rng.below(n as usize),
            };
            run.ops[i].oom = Some((at as u32, rng.chance(1, 2)));
        }
    }
    run
}

// ---- statistics -------------------------------------------------------------------------------
#[derive(Default)]
struct Stats {
    n: BTreeMap<String, u64>,
    digests: HashSet<u64>,
    nontrivial: HashSet<u64>,
    schedules: HashSet<u64>,
    sites: HashSet<u64>,
    edges: HashSet<u64>,
}
impl Stats {
    fn add(&mut self, k: &str, v: u64) {
        *self.n.entry(k.to_string()).or_default() += v;
    }
    fn max(&mut self, k: &str, v: u64) {
        let e = self.n.entry(format!("max:{k}")).or_default();
        *e = (*e).max(v);
    }
    fn run(&mut self, env: &Env, run: &Run, d: &Done) {
        self.add("runs", 1);
        if d.overflow {
            self.add("runs whose history was too long to be recorded", 1);
        }
        self.digests.insert(d.digest);
        if run.soak() {
            self.add("runs of the same calls over and over", 1);
            self.max("passes", run.passes() as u64);
            self.add("calls", (run.passes() as u64 - 1) * mini::live_ops(run).len() as u64);
            self.add("passes compared with the first", (run.passes() as u64 - 1) * run.threads.len() as u64);
        }
        let mut faults = 0;
        let mut started: BTreeMap<u64, (usize, bool, bool)> = BTreeMap::new();
        let mut ended: HashSet<(usize, bool)> = HashSet::new();
        let mut racing = false;
        for e in &d.evs {
            match e.tag {
                tag::FAULT => {
                    faults += 1;
                    self.add(&format!("fault:{}", e.s[0]), 1)
                }
                tag::ALLOC_FAIL => {
                    faults += 1;
                    self.add("fault:allocation-failure", 1)
                }
                tag::OP_START if e.n[0] >= run.ops.len() as u64 => {}
                tag::OP_END if e.n[0] >= run.ops.len() as u64 => {}
                tag::OP_START => {
                    self.add("calls", 1);
                    let op = &run.ops[e.n[0] as usize];
                    self.sites.insert(op.site as u64 * 2 + op.rel as u64);
                    let key = (op.site, op.rel);
                    let cold = !ended.contains(&key) && !run.warm.contains(&key);
                    if cold && started.iter().any(|(o, s)| (s.0, s.1) == key && s.2 && *o != e.n[0]) {
                        racing = true;
                    }
                    if cold {
                        self.add("calls on a site not used before", 1);
                    }
                    started.insert(e.n[0], (op.site, op.rel, true));
                    match op.mode {
                        Mode::Scan => self.add("calls:parse", 1),
                        Mode::GetRegex => self.add("calls:get_regex", 1),
                        Mode::FromStr => self.add("calls:from_str", 1),
                    }
                }
                tag::OP_END => {
                    let op = &run.ops[e.n[0] as usize];
                    ended.insert((op.site, op.rel));
                    if let Some(s) = started.get_mut(&e.n[0]) {
                        s.2 = false;
                    }
                    if e.n[1] == 1 {
                        if env.cat.sites[op.site].bad {
                            self.add("outcome:panic of an unusable site", 1)
                        } else if e.n.get(4).is_some_and(|i| *i != 0) {
                            self.add("outcome:injected panic passed through", 1)
                        } else {
                            self.add("outcome:other panic", 1)
                        }
                    }
                }
                tag::RET => {
                    let k = if e.n[1] == 0 {
                        "outcome:value"
                    } else if e.s[0].starts_with("MF") {
                        "outcome:match failed"
                    } else {
                        "outcome:parsing failed"
                    };
                    self.add(k, 1);
                }
                tag::REGEX => self.add("outcome:regex", 1),
                tag::CB => self.add("callbacks", 1),
                tag::TOK_NEW => self.add("tokens", 1),
                tag::STALLED_RELEASE => self.add("stalls outlived by every other call", 1),
                tag::END => {
                    self.add("steps", e.n[0]);
                    self.add("clock", e.n[1]);
                    self.add("preemptions", e.n[3]);
                    self.add("waits", e.n[4]);
                    if e.n[4] > 0 {
                        self.add("probe:runs in which a call waited for another one's first use", 1);
                    }
                    self.max("steps", e.n[0]);
                    self.schedules.insert(e.n[2]);
                    if faults > 0 || e.n[3] > 0 {
                        self.nontrivial.insert(d.digest);
                    }
                }
                _ => {}
            }
        }
        if racing {
            self.add("probe:runs with overlapping first uses of one site", 1);
        }
        match d.exit {
            Exit::Signal(6) => {
                self.add("outcome:process ended by the allocation failure handler", 1);
                self.nontrivial.insert(d.digest);
            }
            Exit::Done => {}
            _ => self.add("outcome:process ended otherwise", 1),
        }
    }
    fn print(&self) -> String {
        let mut o = String::new();
        for (k, v) in &self.n {
            let _ = writeln!(o, "n\t{k}\t{v}");
        }
        for (name, set) in [
            ("digest", &self.digests),
            ("nontrivial", &self.nontrivial),
            ("schedule", &self.schedules),
            ("site", &self.sites),
            ("edge", &self.edges),
        ] {
            for h in set.iter() {
                let _ = writeln!(o, "h\t{name}\t{h:x}");
            }
        }
        o
    }
    fn merge(&mut self, text: &str) {
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if f[0] == "n" {
                let v: u64 = f[2].parse().unwrap();
                if f[1].starts_with("max:") {
                    let e = self.n.entry(f[1].to_string()).or_default();
                    *e = (*e).max(v);
                } else {
                    self.add(f[1], v);
                }
            } else {
                let h = u64::from_str_radix(f[2], 16).unwrap();
                match f[1] {
                    "digest" => self.digests.insert(h),
                    "nontrivial" => self.nontrivial.insert(h),
                    "schedule" => self.schedules.insert(h),
                    "site" => self.sites.insert(h),
                    _ => self.edges.insert(h),
                };
            }
        }
    }
}

// ---- searching --------------------------------------------------------------------------------
#[derive(Clone)]
struct Args {
    prop: String,
    seed: u64,
    gen_seed: u64,
    sites: u64,
    start: u64,
    runs: u64,
    secs: u64,
    workers: u64,
    dir: String,
}
/// shared between workers: the lowest index found to violate the property
struct Shared(*mut u64);
impl Shared {
    fn new() -> Shared {
        let p = dstcore::sys::shared(4096) as *mut u64;
        unsafe { p.write_volatile(u64::MAX) };
        Shared(p)
    }
    fn min(&self) -> u64 {
        unsafe { self.0.read_volatile() }
    }
    fn lower(&self, v: u64) {
        let a = unsafe { std::sync::atomic::AtomicU64::from_ptr(self.0) };
        a.fetch_min(v, std::sync::atomic::Ordering::SeqCst);
    }
}

fn search(env: &Env, a: &Args, w: u64, found: &Shared, t0: Instant) -> Stats {
    let mut st = Stats::default();
    hist::init();
    let mut k = a.start + w;
    while k < a.runs && t0.elapsed() < Duration::from_secs(a.secs) && k < found.min() {
        let run = prepare(env, &a.prop, a.seed, k);
        let d = simulate(&SITES, &run, None);
        st.run(env, &run, &d);
        let vs = env.check(&run, &d);
        if let Some(h) = vs.iter().find(|v| v.class == "harness") {
            eprintln!("harness error in run {k}: {}", h.detail);
            std::process::exit(2);
        }
        if !vs.is_empty() {
            st.add("runs with any deviation from the model", 1);
            if std::env::var("DST_VERBOSE").is_ok() {
                for v in &vs {
                    eprintln!("run {k}: {} op {:?}: {}", v.class, v.op, v.detail);
                }
            }
            let vs = mine(env, &a.prop, &run, None, vs, None);
            if !vs.is_empty() && confirmed(env, a, k, &vs[0]) {
                found.lower(k);
            }
        }
        k += a.workers;
    }
    for (i, h) in dstcore::cov::hit().iter().enumerate() {
        if *h {
            st.edges.insert(i as u64);
        }
    }
    st
}

/// growth of memory or time is believed only if it goes on in a much longer run
fn confirmed(env: &Env, a: &Args, idx: u64, v: &Violation) -> bool {
    if !matches!(v.class, "mem" | "slow") {
        return true;
    }
    let mut run = prepare(env, &a.prop, a.seed, idx);
    [4, 4, 2].iter().all(|k| {
        run.repeat *= k;
        let d = simulate(&SITES, &run, None);
        if std::env::var("DST_VERBOSE").is_ok() {
            eprintln!("run {idx} again, {} repetitions: {:?}", run.repeat, env.check(&run, &d).iter().map(|x| &x.detail).collect::<Vec<_>>());
        }
        env.check(&run, &d).iter().any(|x| x.class == v.class)
    })
}

fn report(env: &Env, a: &Args, idx: u64) -> (String, String) {
    hist::init();
    let mut run = prepare(env, &a.prop, a.seed, idx);
    run.repeat *= if run.memory() { 4 } else { 1 };
    let d = simulate(&SITES, &run, None);
    let first = mine(env, &a.prop, &run, None, env.check(&run, &d), None);
    let v = match first.first() {
        Some(v) => v.clone(),
        None => Violation { class: "unstable", op: None, detail: "the violation did not show again".into() },
    };
    let class = v.class;
    let before = mini::size(&run, &Some(exec::plan_of(&d)));
    let holds = |r: &Run, p: &Option<Vec<Decision>>| {
        let d = simulate(&SITES, r, p.as_deref());
        !mine(env, &a.prop, r, p.as_deref(), env.check(r, &d), Some(class)).is_empty()
    };
    let mut best = (run.clone(), None);
    if class != "unstable" {
        // the schedule as a list of decisions, if that gives the same run
        let plan = exec::plan_of(&d);
        let seeded = run.memory() || plan.len() > 20_000 || !holds(&run, &Some(plan.clone()));
        let start = if seeded { None } else { Some(plan) };
        let quick = class == "hang";
        let (r, p) = mini::minimise(
            run.clone(),
            start,
            mini::Budget::new(if quick { 12 } else { 3000 }, 60),
            &mut |r, p| holds(r, p),
        );
        let c = mini::compact(&r);
        best = if holds(&c, &p) { (c, p) } else { (r, p) };
    }
    let (run, plan) = best;
    let d = simulate(&SITES, &run, plan.as_deref());
    let vs = env.check(&run, &d);
    let shown = vs.iter().find(|x| x.class == class).cloned().unwrap_or(v);
    let after = mini::size(&run, &plan);
    let mut notes = vec![
        format!("{}: {}", shown.class, shown.detail),
        format!("found in run {idx} of seed {}", a.seed),
        format!("operations, faults, scheduling decisions, text: {before:?} before minimisation, {after:?} after"),
    ];
    for (i, o) in run.ops.iter().enumerate() {
        notes.push(format!(
            "op {i}: {:?}, {} debug assertions, {}, text {:?}, faults {:?} {:?}",
            o.mode,
            if o.rel { "without" } else { "with" },
            env.cat.sites[o.site].source,
            o.texts[0],
            o.faults,
            o.oom
        ));
    }
    let r = replay::Replay {
        property: a.prop.clone(),
        class: class.to_string(),
        gen_seed: a.gen_seed,
        sites: a.sites,
        digest: d.digest,
        run,
        plan,
        notes,
    };
    let path = format!("{}/{}-{}-{}.replay", a.dir, a.prop, a.gen_seed, idx);
    std::fs::write(&path, replay::print(&r)).unwrap();
    (path, format!("{}: {}", shown.class, shown.detail))
}

fn show_history(run: &Run, d: &Done) {
    for e in &d.evs {
        let name = match e.tag {
            tag::OP_START => "start",
            tag::CB => "callback",
            tag::RET => "return",
            tag::OP_END => "end",
            tag::TOK_NEW => "value made",
            tag::TOK_DROP => "value dropped",
            tag::SWITCH => "switch",
            tag::VIOLATION => "VIOLATION",
            tag::ALLOC_FAIL => "allocation fails",
            tag::END => "end of run",
            tag::REGEX => "regex",
            tag::MEM => "memory",
            tag::FAULT => "fault",
            tag::RENDER => "text of the error",
            tag::SOAK => "not like the first pass",
            tag::STALLED_RELEASE => "stalled thread released",
            _ => "held",
        };
        println!("  {name} {:?} {:?}", e.n, e.s);
        let _ = run;
    }
}

fn do_replay(env: &Env, path: &str, quiet: bool) -> i32 {
    hist::init();
    let Some(r) = std::fs::read_to_string(path).ok().and_then(|t| replay::parse(&t)) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let d = simulate(&SITES, &r.run, r.plan.as_deref());
    let all = env.check(&r.run, &d);
    if !quiet {
        show_history(&r.run, &d);
        println!("exit {:?}, digest {:016x} (recorded {:016x})", d.exit, d.digest, r.digest);
        for v in &all {
            println!("{} op {:?}: {}", v.class, v.op, v.detail);
        }
    }
    let m = mine(env, &r.property, &r.run, r.plan.as_deref(), all, Some(&r.class));
    if m.is_empty() {
        println!("not reproduced: {} {}", r.property, r.class);
        return 0;
    }
    println!("VIOLATION property={} replay={path}", r.property);
    if d.digest != r.digest {
        println!("the history is not the recorded one");
        return 4;
    }
    1
}

fn no_aslr() {
    use std::os::unix::process::CommandExt;
    const NO_RANDOMIZE: u64 = 0x0040000;
    unsafe {
        let p = dstcore::sys::personality(0xffffffff);
        if p < 0 || p as u64 & NO_RANDOMIZE != 0 || std::env::var("DST_ASLR").is_ok() {
            return;
        }
        if dstcore::sys::personality(p as u64 | NO_RANDOMIZE) < 0 {
            return;
        }
    }
    let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("DST_ASLR", "1").exec();
    eprintln!("exec: {e}");
}

fn main() {
    no_aslr();
    std::panic::set_hook(Box::new(|_| dstcore::work::panic_hook()));
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str, d: &str| -> String {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string())
    };
    let num = |name: &str, d: u64| -> u64 { opt(name, &d.to_string()).parse().expect("number") };
    let a = Args {
        prop: opt("--property", "C01"),
        seed: num("--seed", 1),
        gen_seed: num("--gen-seed", 1),
        sites: num("--sites", 0),
        start: num("--start", 0),
        runs: num("--runs", 1000),
        secs: num("--secs", 60),
        workers: num("--workers", 8),
        dir: opt("--dir", "/tmp"),
    };
    let env = Env::new();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("search") => main_search(&env, &a, &opt("--stats", "")),
        Some("replay") => do_replay(&env, &args[2], args.iter().any(|x| x == "-q")),
        Some("digests") => main_digests(&env, &a),
        Some("show") => {
            hist::init();
            let run = prepare(&env, &a.prop, a.seed, num("--index", 0));
            let d = simulate(&SITES, &run, None);
            for (i, o) in run.ops.iter().enumerate() {
                println!("op {i} {:?} {}: {:?} {:?} {:?}", o.mode, env.cat.sites[o.site].source, o.texts[0], o.faults, o.oom);
            }
            show_history(&run, &d);
            for v in env.check(&run, &d) {
                println!("{} op {:?}: {}", v.class, v.op, v.detail);
            }
            0
        }
        _ => {
            eprintln!("usage: dst search|replay|digests|show ...");
            2
        }
    };
    std::process::exit(code);
}

fn main_search(env: &Env, a: &Args, stats_path: &str) -> i32 {
    dstcore::cov::share();
    let found = Shared::new();
    let t0 = Instant::now();
    let mut pids = vec![];
    for w in 0..a.workers {
        let pid = unsafe { dstcore::sys::fork() };
        if pid == 0 {
            dstcore::sys::pin(w as usize);
            let st = search(env, a, w, &found, t0);
            std::fs::write(format!("{}/stats-{w}", a.dir), st.print()).unwrap();
            unsafe { dstcore::sys::_exit(0) }
        }
        pids.push(pid);
    }
    let mut st = Stats::default();
    let mut failed = false;
    for (w, pid) in pids.into_iter().enumerate() {
        let mut status = 0;
        while unsafe { dstcore::sys::waitpid(pid, &mut status, 0) } != pid {}
        failed |= status != 0;
        let p = format!("{}/stats-{w}", a.dir);
        if let Ok(t) = std::fs::read_to_string(&p) {
            st.merge(&t);
            let _ = std::fs::remove_file(&p);
        }
    }
    st.add("edges total", dstcore::cov::edges() as u64);
    st.add("milliseconds", t0.elapsed().as_millis() as u64);
    if !stats_path.is_empty() {
        std::fs::write(stats_path, st.print()).unwrap();
    }
    if failed {
        eprintln!("a worker failed");
        return 2;
    }
    for (k, v) in &st.n {
        println!("{k} {v}");
    }
    println!("distinct histories {}, non-trivial {}, schedules {}, edges hit {}", st.digests.len(), st.nontrivial.len(), st.schedules.len(), st.edges.len());
    if found.min() != u64::MAX {
        let (path, text) = report(env, a, found.min());
        println!("found {}", found.min());
        println!("detail {text}");
        println!("replay {path}");
        return 1;
    }
    0
}

/// digests of the histories of a range of runs: two processes must agree on every line
fn main_digests(env: &Env, a: &Args) -> i32 {
    let mut pids = vec![];
    for w in 0..a.workers {
        let pid = unsafe { dstcore::sys::fork() };
        if pid == 0 {
            dstcore::sys::pin(w as usize);
            hist::init();
            let mut o = String::new();
            let mut k = w;
            while k < a.runs {
                let run = prepare(env, &a.prop, a.seed, k);
                let d = simulate(&SITES, &run, None);
                let plan = exec::plan_of(&d);
                let mut same = 1;
                if !run.memory() && k % 4 == 0 {
                    // the plan logged by a run gives the same run
                    let e = simulate(&SITES, &run, Some(&plan));
                    same = (e.digest == d.digest) as u8;
                }
                let _ = writeln!(o, "{k} {:016x} {same}", d.digest);
                k += a.workers;
            }
            std::fs::write(format!("{}/digests-{w}", a.dir), o).unwrap();
            unsafe { dstcore::sys::_exit(0) }
        }
        pids.push(pid);
    }
    let mut all: BTreeMap<u64, String> = BTreeMap::new();
    for (w, pid) in pids.into_iter().enumerate() {
        let mut status = 0;
        while unsafe { dstcore::sys::waitpid(pid, &mut status, 0) } != pid {}
        let p = format!("{}/digests-{w}", a.dir);
        for l in std::fs::read_to_string(&p).unwrap_or_default().lines() {
            all.insert(l.split(' ').next().unwrap().parse().unwrap(), l.to_string());
        }
        let _ = std::fs::remove_file(&p);
    }
    for l in all.values() {
        println!("{l}");
    }
    0
}
