//! The oracle: a recorded history against the reference model.
use crate::exec::{Done, Exit};
use dstcore::hist::tag;
use dstcore::model::{predict, Catalogue, Outcome};
use dstcore::types::Kind;
use dstcore::work::{Fault, Mode, Op, Run, Slot};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: &'static str,
    pub op: Option<usize>,
    pub detail: String,
}

#[derive(Default, Clone)]
pub struct OpRec {
    pub start: Option<(usize, u64)>, // position, thread
    pub cbs: Vec<(usize, Kind, u32, String)>,
    pub dflts: Vec<u32>,
    pub ret: Option<(usize, bool, u64, u64, String, Vec<u64>)>, // position, error?, allocs, bytes, text, tokens
    pub held: Option<(bool, String)>,
    pub regex: Option<(usize, u64, u64, u64, String)>, // position, address, allocs, bytes, captures
    pub end: Option<(usize, bool, u64, String)>,       // position, panic?, id, message
    /// of the payload
    pub kind: u64,
    pub new: BTreeMap<u64, Vec<usize>>,
    pub drops: BTreeMap<u64, Vec<usize>>,
    pub alloc_fail: bool,
    /// numbers, text, what is missing
    pub shown: Vec<(Vec<u64>, Vec<String>)>,
}
pub fn records(run: &Run, d: &Done) -> Vec<OpRec> {
    let mut r = vec![OpRec::default(); run.ops.len()];
    for (i, e) in d.evs.iter().enumerate() {
        let op = e.n.first().map(|n| *n as usize).filter(|n| *n < r.len());
        let Some(op) = op else { continue };
        let r = &mut r[op];
        match e.tag {
            tag::OP_START => r.start = Some((i, e.n[1])),
            tag::CB => {
                let k = Kind::from_u8(e.n[2] as u8);
                match k {
                    Kind::Default => r.dflts.push(e.n[3] as u32),
                    Kind::Hold | Kind::Render => {}
                    _ => r.cbs.push((i, k, e.n[3] as u32, e.s[0].clone())),
                }
            }
            tag::RET => r.ret = Some((i, e.n[1] == 1, e.n[2], e.n[3], e.s[0].clone(), e.n[4..].to_vec())),
            tag::HELD => r.held = Some((e.n[1] == 1, e.s[0].clone())),
            tag::REGEX => r.regex = Some((i, e.n[1], e.n[2], e.n[3], e.s[0].clone())),
            tag::OP_END => {
                r.kind = e.n.get(5).copied().unwrap_or(0);
                r.end = Some((i, e.n[1] == 1, e.n.get(4).copied().unwrap_or(0), e.s[0].clone()))
            }
            tag::TOK_NEW => r.new.entry(e.n[1]).or_default().push(i),
            tag::TOK_DROP => r.drops.entry(e.n[1]).or_default().push(i),
            tag::RENDER => r.shown.push((e.n.clone(), e.s.clone())),
            tag::ALLOC_FAIL => r.alloc_fail = true,
            _ => {}
        }
    }
    r
}

/// a result without the places its borrowed parts point to
fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('@') {
        o.push_str(&rest[..i + 1]);
        rest = &rest[i + 1..];
        let cut = if let Some(r) = rest.strip_prefix("COPY:").or_else(|| rest.strip_prefix("OWNED:")) {
            Some(r)
        } else {
            rest.find(':')
                .filter(|c| rest[..*c].bytes().all(|b| b.is_ascii_digit() || b == b'+') && *c > 0)
                .map(|c| &rest[c + 1..])
        };
        if let Some(r) = cut {
            rest = r;
        }
    }
    o.push_str(rest);
    o
}

/// the kind of payload the caller sees of this injected panic
fn payload_kind(op: &Op, id: u64) -> u64 {
    let n = (id % 10_000) as u32;
    let slot = match n {
        9000.. => Slot::Hold,
        8000.. => Slot::Render(n - 8000),
        5000.. => Slot::Dflt(n - 5000),
        _ => Slot::Cb(n),
    };
    let k = op.faults.iter().find_map(|(s, f)| match f {
        Fault::Panic(k) if *s == slot => Some(*k),
        _ => None,
    });
    match k {
        Some(4) | None => 0,
        Some(k) => k as u64,
    }
}

/// number of allocations it takes to compile the pattern of each site
pub type Costs = [u64];

/// most allocations of a parse, and of a call for the regex, on a site that has been used
pub fn bounds(cost: u64) -> (u64, u64) {
    // a parse also sets up the engine's cache and makes values
    (cost / 10 * 9 + 60, cost / 2)
}

/// A run of the same calls over and over, as its history shows it: the first pass, and with
/// operations of their own the pass that was not like it.
fn doubled(run: &Run) -> Run {
    let n = run.ops.len() as u32;
    let mut r = run.clone();
    r.loops = 0;
    r.repeat = 1;
    for o in &run.ops {
        let mut o = o.clone();
        for (_, f) in o.faults.iter_mut() {
            match f {
                Fault::Nested(x) | Fault::DropNested(x) => *x += n,
                _ => {}
            }
        }
        r.ops.push(o);
    }
    r
}

pub fn check(cat: &Catalogue, costs: &Costs, run: &Run, d: &Done) -> Vec<Violation> {
    if run.soak() {
        let mut v = check(cat, costs, &doubled(run), d);
        for x in v.iter_mut() {
            x.op = x.op.map(|o| o % run.ops.len());
        }
        return v;
    }
    let mut v: Vec<Violation> = vec![];
    let mut bad = |class: &'static str, op: Option<usize>, detail: String| v.push(Violation { class, op, detail });
    for e in d.evs.iter().filter(|e| e.tag == tag::VIOLATION) {
        let class = match e.s[0].as_str() {
            "deadlock" => "deadlock",
            "step-cap" => "hang",
            "blocked-by-stall" => "blocked-by-stall",
            // the runtime says why it aborts
            "effect" if matches!(d.exit, Exit::Signal(_)) => continue,
            "effect" => "effect",
            "waits" => "waits",
            "render" => "render",
            _ => "harness",
        };
        bad(class, None, e.s[1].clone());
    }
    let failed_alloc = d.evs.iter().any(|e| e.tag == tag::ALLOC_FAIL);
    match d.exit {
        Exit::Done | Exit::Fatal => {}
        Exit::Signal(6) if failed_alloc => {}
        Exit::Signal(s) => bad("crash", None, format!("the process was killed by signal {s}")),
        Exit::Hang => bad("hang", None, "a call ran on without ever coming to an end".into()),
        Exit::Code(c) => bad("harness", None, format!("exit code {c}")),
    }
    if d.overflow && d.exit == Exit::Done {
        // not recorded completely: says nothing
        return vec![];
    }
    if run.memory() {
        memory(run, d, &mut v);
        return v;
    }
    let complete = d.exit == Exit::Done;
    let recs = records(run, d);
    for (i, r) in recs.iter().enumerate() {
        if r.start.is_none() {
            continue;
        }
        let op = &run.ops[i];
        let p = predict(cat, op, i);
        let mut bad = |class: &'static str, detail: String| v.push(Violation { class, op: Some(i), detail });
        let done = r.end.is_some();
        if !done && complete {
            bad("harness", "operation without an end".into());
            continue;
        }
        // --- callbacks
        if !p.any_cbs {
            let mut exact = done && !r.alloc_fail && !p.open_end;
            if let Some((_, true, id, _)) = r.end {
                if p.or_panic == Some(id) {
                    exact = false;
                }
            }
            let n = r.cbs.len().min(p.cbs.len());
            let same = (0..n).all(|k| {
                let (_, kind, t, text) = &r.cbs[k];
                let c = &p.cbs[k];
                *kind == c.kind && *t == c.tag && *text == c.text
            });
            let more = r.cbs.len() > p.cbs.len() && !matches!(p.outcome, Outcome::NoValue);
            if !same || more || (exact && r.cbs.len() < p.cbs.len()) {
                let show = |k: Kind, t: u32, s: &str| format!("{k:?}{t}({s:?})");
                let a: Vec<String> = r.cbs.iter().map(|c| show(c.1, c.2, &c.3)).collect();
                let b: Vec<String> = p.cbs.iter().map(|c| show(c.kind, c.tag, &c.text)).collect();
                bad("cbseq", format!("callbacks [{}], expected [{}]", a.join(" "), b.join(" ")));
            }
        }
        if !done {
            continue;
        }
        // --- outcome
        let (_, panicked, id, msg) = r.end.clone().unwrap();
        let got = match (&r.ret, &r.regex) {
            (Some(x), _) => format!("{}({})", if x.1 { "Err" } else { "Ok" }, x.4),
            (_, Some(x)) => format!("regex capturing {}", x.4),
            _ if panicked && id != 0 => format!("injected panic {id}"),
            _ => format!("panic {msg:?}"),
        };
        let oom_panic = r.alloc_fail && panicked;
        let or_panic = panicked && p.or_panic.is_some() && p.or_panic == Some(id);
        if !oom_panic && !or_panic {
            match &p.outcome {
                Outcome::Ok(s) => match &r.ret {
                    Some(x) if !x.1 => {
                        if x.4 != *s {
                            let class = if strip(&x.4) == strip(s) { "view" } else { "result" };
                            bad(class, format!("returned {got}, expected Ok({s})"));
                        }
                    }
                    Some(_) => bad("false-error", format!("returned {got}, expected Ok({s})")),
                    None => bad("unexpected-panic", format!("{got}, expected Ok({s})")),
                },
                Outcome::Err(s) => match &r.ret {
                    Some(x) if x.1 => {
                        if x.4 != *s {
                            let mf = |t: &str| t.starts_with("MF");
                            let class = if mf(&x.4) != mf(s) { "error-kind" } else { "chain" };
                            bad(class, format!("returned {got}, expected Err({s})"));
                        }
                    }
                    Some(_) => bad("false-value", format!("returned {got}, expected Err({s})")),
                    None => bad("unexpected-panic", format!("{got}, expected Err({s})")),
                },
                Outcome::Panic(want) => {
                    if !panicked || (r.ret.is_some() && !op.faults.iter().any(|f| matches!(f, (Slot::Hold, Fault::Panic(_))))) {
                        bad("panic-swallowed", format!("{got}, expected the injected panic {want}"));
                    } else if id != *want {
                        bad("panic-payload", format!("{got}, expected the injected panic {want}"));
                    } else if r.kind != payload_kind(op, id) {
                        bad("panic-payload", format!("{got}: a payload of another type arrived"));
                    }
                }
                Outcome::AnyPanic => {
                    if !panicked {
                        let class = if cat.sites[op.site].bad { "bad-noloud" } else { "drift" };
                        bad(class, format!("{got}, expected a panic"));
                    }
                }
                Outcome::NoValue => {
                    if r.ret.as_ref().is_some_and(|x| !x.1) {
                        bad("drift", format!("{got}, expected a panic or an error"));
                    }
                }
                Outcome::Caps(s) => match &r.regex {
                    Some(x) => {
                        if x.4 != *s {
                            bad("regex-caps", format!("{got}, expected {s}"));
                        }
                    }
                    None => bad("unexpected-panic", format!("{got}, expected a regex")),
                },
            }
        }
        if let Some((false, now)) = &r.held {
            bad("held", format!("{got}, but while it was held it became {now}"));
        }
        // --- the text of the error
        for (n, s) in &r.shown {
            let form = if n[1] & 1 == 1 { "Debug" } else { "Display" };
            let whole = r.shown.iter().find(|x| x.0[1] == n[1] + 2).map(|x| x.1[0].as_str());
            match n[1] {
                4 => bad("render", format!("{got}, but after its text was asked for it is {}", s[0])),
                5 => bad("render", format!("{got}, but asking for the text of an error below it panicked")),
                2 | 3 if n[2] != 0 => bad("render", format!("{form} of {got} failed though the sink did not")),
                2 | 3 if !s[1].is_empty() => bad("render", format!("{form} of {got} is incomplete: {}", s[1])),
                2 | 3 => {}
                _ => {
                    let Some(whole) = whole else { continue };
                    let how = |k: u64| ["succeeded", "failed", "panicked"][k as usize];
                    if !whole.starts_with(&s[0]) || (n[2] == 0 && n[3] == 0 && s[0] != whole) {
                        bad("render", format!("{form} of {got} was {:?} once and {whole:?} later", s[0]));
                    } else if n[2] != n[3] {
                        bad("render", format!("{form} of {got} {}, where writing it {}", how(n[2]), how(n[3])));
                    } else if n[4] != n[5] {
                        bad("render", format!("{form} of {got}: panic {} arrived, {} was raised", n[4], n[5]));
                    }
                }
            }
        }
        // --- tokens: created once; in the result or dropped once before the call returned
        let (ret_at, kept): (usize, &[u64]) = match &r.ret {
            Some(x) => (x.0, &x.5),
            None => (r.end.as_ref().unwrap().0, &[]),
        };
        let end_at = r.end.as_ref().unwrap().0;
        let seqs: BTreeSet<u64> = r.new.keys().chain(r.drops.keys()).chain(kept.iter()).copied().collect();
        for s in seqs {
            let n = r.new.get(&s).map_or(0, |x| x.len());
            let empty = vec![];
            let drops = r.drops.get(&s).unwrap_or(&empty);
            let in_result = kept.iter().filter(|k| **k == s).count();
            let problem = if n != 1 {
                Some("was not created exactly once")
            } else if in_result > 1 {
                Some("is twice in the result")
            } else if drops.is_empty() {
                Some(if in_result == 1 { "is in the result but was never dropped" } else { "was lost: it is not in the result and was never dropped" })
            } else if drops.len() > 1 {
                Some("was dropped more than once")
            } else if in_result == 1 && drops[0] < ret_at {
                Some("is in the result but had been dropped before")
            } else if in_result == 0 && drops[0] > ret_at {
                Some("is not in the result but outlived the call")
            } else if drops[0] > end_at {
                Some("outlived its owner")
            } else {
                None
            };
            if let Some(t) = problem {
                bad("tok", format!("value #{s} {t}; outcome {got}"));
            }
        }
    }
    // --- one regex object per site
    let mut addr: BTreeMap<(usize, bool), (usize, u64)> = BTreeMap::new();
    let mut owner: BTreeMap<u64, (usize, bool)> = BTreeMap::new();
    for (i, r) in recs.iter().enumerate() {
        let Some(x) = &r.regex else { continue };
        let key = (run.ops[i].site, run.ops[i].rel);
        match addr.get(&key) {
            Some(a) if a.1 != x.1 => v.push(Violation {
                class: "regex-id",
                op: Some(i),
                detail: format!("site {} gave another regex object than it gave to operation {}", key.0, a.0),
            }),
            Some(_) => {}
            None => {
                addr.insert(key, (i, x.1));
            }
        }
        match owner.get(&x.1) {
            Some(k) if *k != key => v.push(Violation {
                class: "regex-id",
                op: Some(i),
                detail: format!("sites {} and {} share a regex object", k.0, key.0),
            }),
            _ => {
                owner.insert(x.1, key);
            }
        }
    }
    // --- never compiled again
    for (i, r) in recs.iter().enumerate() {
        let op = &run.ops[i];
        let Some((at, _)) = r.start else { continue };
        if cat.sites[op.site].bad || op.mode == Mode::FromStr {
            continue;
        }
        let key = (op.site, op.rel, op.mode == Mode::GetRegex);
        let warm = run.warm.contains(&(op.site, op.rel))
            || recs.iter().enumerate().any(|(j, o)| {
                let k = (run.ops[j].site, run.ops[j].rel, run.ops[j].mode == Mode::GetRegex);
                let used = o.ret.as_ref().map(|x| x.0).or(o.regex.as_ref().map(|x| x.0));
                j != i && k == key && run.ops[j].mode != Mode::FromStr && used.is_some_and(|u| u < at)
            });
        if !warm {
            continue;
        }
        let allocs = match (&r.ret, &r.regex) {
            (Some(x), _) => x.2,
            (_, Some(x)) => x.2,
            _ => continue,
        };
        let b = bounds(costs[op.site]);
        let bound = if op.mode == Mode::GetRegex { b.1 } else { b.0 };
        if allocs > bound {
            v.push(Violation {
                class: "regex-recompile",
                op: Some(i),
                detail: format!("a call on a site already in use made {allocs} allocations"),
            });
        }
    }
    // --- pairs: the same text and faults through from_str and through a call site
    for (i, a) in recs.iter().enumerate() {
        for (j, b) in recs.iter().enumerate() {
            let (x, y) = (&run.ops[i], &run.ops[j]);
            if x.mode != Mode::FromStr || y.mode != Mode::Scan || x.site != y.site || x.rel != y.rel {
                continue;
            }
            if x.texts != y.texts || x.faults != y.faults || x.oom.is_some() || y.oom.is_some() {
                continue;
            }
            let (Some(ea), Some(eb)) = (&a.end, &b.end) else { continue };
            if a.start.is_none() || b.start.is_none() {
                continue;
            }
            let out = |r: &OpRec, e: &(usize, bool, u64, String)| match (&r.ret, e.1) {
                (Some(x), false) => format!("{}({})", if x.1 { "Err" } else { "Ok" }, x.4),
                _ if e.2 != 0 => format!("injected panic at callback {}", e.2 % 10_000),
                _ => "panic".to_string(),
            };
            let cbs = |r: &OpRec| r.cbs.iter().map(|c| (c.1, c.2, c.3.clone())).collect::<Vec<_>>();
            let (oa, ob) = (out(a, ea), out(b, eb));
            // FromStr types do not match a pattern, and their from_str accepts whatever FromStr does
            let derived = cat.sites[x.site].from_str == dstcore::model::Fs::Derived;
            if derived && oa != ob {
                v.push(Violation { class: "pair", op: Some(i), detail: format!("from_str: {oa}; call site: {ob}") });
            }
            if derived && cbs(a) != cbs(b) {
                v.push(Violation { class: "pair", op: Some(i), detail: "different conversions were run".into() });
            }
        }
    }
    v
}

/// growth of live memory, or of the work done, over the repetitions of a workload: what does not level off
fn memory(run: &Run, d: &Done, v: &mut Vec<Violation>) {
    let m: Vec<(i64, i64)> = d.evs.iter().filter(|e| e.tag == tag::MEM).map(|e| (e.n[1] as i64, e.n[2] as i64)).collect();
    if m.len() < run.repeat {
        return;
    }
    let n = m.len();
    // A leak, in separate blocks or in one that is enlarged now and then, grows twice as much in
    // twice the time; pools and caches fill up.
    let at = |k: usize| m[n / k - 1];
    let grow = |f: &dyn Fn((i64, i64)) -> i64, need: i64| {
        let (a, b, c) = (f(at(4)) - f(at(8)), f(at(2)) - f(at(4)), f(at(1)) - f(at(2)));
        a > 0 && b > 0 && c >= need && 10 * c >= 14 * b && 10 * c >= 25 * a
    };
    let calls = n as i64 / 2;
    let same = run.ops.iter().all(|o| o.texts.len() == 1);
    let (blocks, bytes) = if same { (2, calls / 8) } else { (calls / 20, calls * 4) };
    if grow(&|x| x.0, blocks) || grow(&|x| x.1, bytes) {
        v.push(Violation {
            class: "mem",
            op: None,
            detail: format!(
                "live heap (blocks, bytes) after {} repetitions: {:?}, after {}: {:?}, after {}: {:?}, after {}: {:?}",
                n / 8, at(8), n / 4, at(4), n / 2, at(2), n, at(1)
            ),
        });
    }    // steps per repetition, on average, in four stretches each twice as long as the one before
    let t: Vec<i64> = d.evs.iter().filter(|e| e.tag == tag::MEM).map(|e| e.n[3] as i64).collect();
    if n < 32 {
        return;
    }
    let mean = |a: usize, b: usize| (t[b - 1] - t[a - 1]) * 16 / (b - a) as i64;
    let w = [mean(n / 16, n / 8), mean(n / 8, n / 4), mean(n / 4, n / 2), mean(n / 2, n)];
    let (a, b, c) = (w[1] - w[0], w[2] - w[1], w[3] - w[2]);
    if a > 0 && b > 0 && c >= 64.max(w[0] / 100) && 10 * c >= 14 * b && 10 * c >= 25 * a {
        v.push(Violation {
            class: "slow",
            op: None,
            detail: format!("steps per repetition, up to repetition {}: {}, {}: {}, {}: {}, {}: {}", n / 8, w[0] / 16, n / 4, w[1] / 16, n / 2, w[2] / 16, n, w[3] / 16),
        });
    }
}
