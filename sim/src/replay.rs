//! Replay files: a run written out in full, one fact per line.
use dstcore::sched::{Decision, SchedCfg};
use dstcore::work::{Fault, Mode, Op, Run, Slot, ThreadW};
use std::fmt::Write;

#[derive(Clone)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub gen_seed: u64,
    pub sites: u64,
    pub digest: u64,
    pub run: Run,
    /// None: scheduled from the seed
    pub plan: Option<Vec<Decision>>,
    pub notes: Vec<String>,
}

fn esc(s: &str) -> String {
    format!("{s:?}")
}
fn unesc(s: &str) -> Option<String> {
    let mut o = String::new();
    let mut c = s.strip_prefix('"')?.strip_suffix('"')?.chars();
    while let Some(x) = c.next() {
        if x != '\\' {
            o.push(x);
            continue;
        }
        match c.next()? {
            'n' => o.push('\n'),
            't' => o.push('\t'),
            'r' => o.push('\r'),
            '0' => o.push('\0'),
            'u' => {
                let mut h = String::new();
                c.next()?;
                for x in c.by_ref() {
                    if x == '}' {
                        break;
                    }
                    h.push(x);
                }
                o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            x => o.push(x),
        }
    }
    Some(o)
}

fn fault(f: &(Slot, Fault)) -> String {
    let s = match f.0 {
        Slot::Cb(n) => format!("callback:{n}"),
        Slot::Dflt(n) => format!("default:{n}"),
        Slot::Hold => "hold:0".to_string(),
        Slot::Render(n) => format!("shown:{n}"),
    };
    let t = match f.1 {
        Fault::Err => "error:0".to_string(),
        Fault::None => "none:0".to_string(),
        Fault::Panic(k) => format!("panic:{k}"),
        Fault::Stall => "stall:0".to_string(),
        Fault::Yield => "yield:0".to_string(),
        Fault::Nested(o) => format!("nested:{o}"),
        Fault::DropNested(o) => format!("dropnested:{o}"),
        Fault::Drift(d) => format!("drift:{d}"),
        Fault::Render(n) => format!("render:{n}"),
    };
    format!("{s}:{t}")
}
fn parse_fault(s: &str) -> Option<(Slot, Fault)> {
    let p: Vec<&str> = s.split(':').collect();
    let n: u32 = p[1].parse().ok()?;
    let slot = match p[0] {
        "callback" => Slot::Cb(n),
        "default" => Slot::Dflt(n),
        "shown" => Slot::Render(n),
        _ => Slot::Hold,
    };
    let f = match p[2] {
        "error" => Fault::Err,
        "none" => Fault::None,
        "panic" => Fault::Panic(p[3].parse().ok()?),
        "stall" => Fault::Stall,
        "yield" => Fault::Yield,
        "nested" => Fault::Nested(p[3].parse().ok()?),
        "dropnested" => Fault::DropNested(p[3].parse().ok()?),
        "render" => Fault::Render(p[3].parse().ok()?),
        _ => Fault::Drift(p[3].parse().ok()?),
    };
    Some((slot, f))
}

pub fn print(r: &Replay) -> String {
    let mut o = String::new();
    let run = &r.run;
    let _ = writeln!(o, "dst-replay 1\nproperty {}\nclass {}\ngen-seed {}\nsites {:016x}\ndigest {:016x}", r.property, r.class, r.gen_seed, r.sites, r.digest);
    let s = &run.sched;
    let w: Vec<String> = s.weights.iter().map(|w| w.to_string()).collect();
    let dem: Vec<String> = s.demote.iter().map(|w| w.to_string()).collect();
    let _ = writeln!(
        o,
        "sched {} {} {} {} {} {} {} {} {} {}",
        s.seed, s.env_seed, s.alloc, s.edge, s.callback, s.futex, s.spurious, s.step_cap,
        if w.is_empty() { "-".to_string() } else { w.join(",") },
        if dem.is_empty() { "-".to_string() } else { dem.join(",") }
    );
    let _ = writeln!(o, "round {}\nrepeat {}\nloops {}", run.round, run.repeat, run.loops);
    for (s, rel) in &run.warm {
        let _ = writeln!(o, "warm {s} {}", *rel as u8);
    }
    for t in &run.threads {
        let ops: Vec<String> = t.ops.iter().map(|x| x.to_string()).collect();
        let _ = writeln!(
            o,
            "thread {} {}",
            if ops.is_empty() { "-".to_string() } else { ops.join(",") },
            t.exit_op.map_or("-".to_string(), |e| e.to_string())
        );
    }
    for op in &run.ops {
        let f: Vec<String> = op.faults.iter().map(fault).collect();
        let _ = writeln!(
            o,
            "op {} {} {} {} {}",
            op.site,
            op.rel as u8,
            match op.mode {
                Mode::Scan => "scan",
                Mode::GetRegex => "getregex",
                Mode::FromStr => "fromstr",
            },
            if f.is_empty() { "-".to_string() } else { f.join(",") },
            op.oom.map_or("-".to_string(), |(n, p)| format!("{n}:{}", p as u8))
        );
        for t in &op.texts {
            let _ = writeln!(o, "text {}", esc(t));
        }
    }
    match &r.plan {
        None => {
            let _ = writeln!(o, "seeded");
        }
        Some(p) => {
            for d in p {
                let _ = writeln!(o, "at {} {} {}", d.0, d.1, d.2);
            }
        }
    }
    for n in &r.notes {
        for l in n.lines() {
            let _ = writeln!(o, "# {l}");
        }
    }
    o
}

pub fn parse(text: &str) -> Option<Replay> {
    let mut r = Replay {
        property: String::new(),
        class: String::new(),
        gen_seed: 0,
        sites: 0,
        digest: 0,
        run: Run { repeat: 1, ..Default::default() },
        plan: Some(vec![]),
        notes: vec![],
    };
    for l in text.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        let f: Vec<&str> = v.split(' ').collect();
        match k {
            "property" => r.property = v.to_string(),
            "class" => r.class = v.to_string(),
            "gen-seed" => r.gen_seed = v.parse().ok()?,
            "sites" => r.sites = u64::from_str_radix(v, 16).ok()?,
            "digest" => r.digest = u64::from_str_radix(v, 16).ok()?,
            "sched" => {
                r.run.sched = SchedCfg {
                    seed: f[0].parse().ok()?,
                    env_seed: f[1].parse().ok()?,
                    alloc: f[2].parse().ok()?,
                    edge: f[3].parse().ok()?,
                    callback: f[4].parse().ok()?,
                    futex: f[5].parse().ok()?,
                    spurious: f[6].parse().ok()?,
                    step_cap: f[7].parse().ok()?,
                    weights: if f[8] == "-" { vec![] } else { f[8].split(',').filter_map(|w| w.parse().ok()).collect() },
                    demote: match f.get(9) {
                        None | Some(&"-") => vec![],
                        Some(d) => d.split(',').filter_map(|w| w.parse().ok()).collect(),
                    },
                }
            }
            "round" => r.run.round = v.parse().ok()?,
            "repeat" => r.run.repeat = v.parse().ok()?,
            "loops" => r.run.loops = v.parse().ok()?,
            "warm" => r.run.warm.push((f[0].parse().ok()?, f[1] == "1")),
            "thread" => r.run.threads.push(ThreadW {
                ops: if f[0] == "-" { vec![] } else { f[0].split(',').filter_map(|x| x.parse().ok()).collect() },
                exit_op: f[1].parse().ok(),
            }),
            "op" => r.run.ops.push(Op {
                site: f[0].parse().ok()?,
                rel: f[1] == "1",
                mode: match f[2] {
                    "scan" => Mode::Scan,
                    "getregex" => Mode::GetRegex,
                    _ => Mode::FromStr,
                },
                texts: vec![],
                faults: if f[3] == "-" { vec![] } else { f[3].split(',').map(parse_fault).collect::<Option<Vec<_>>>()? },
                oom: f[4].split_once(':').map(|(n, p)| (n.parse().unwrap_or(1), p == "1")),
            }),
            "text" => r.run.ops.last_mut()?.texts.push(unesc(v)?),
            "seeded" => r.plan = None,
            "at" => r.plan.as_mut()?.push((f[0].parse().ok()?, f[1].parse().ok()?, f[2].parse().ok()?)),
            _ => {}
        }
    }
    Some(r)
}
