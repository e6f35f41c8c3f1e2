//! Minimisation: every candidate is a full run; one is kept if the violation is still there.
use dstcore::sched::Decision;
use dstcore::work::{Fault, Run};
use std::time::{Duration, Instant};

pub struct Budget {
    pub runs: usize,
    pub until: Instant,
}
impl Budget {
    pub fn new(runs: usize, secs: u64) -> Budget {
        Budget { runs, until: Instant::now() + Duration::from_secs(secs) }
    }
    fn left(&mut self) -> bool {
        self.runs = self.runs.saturating_sub(1);
        self.runs > 0 && Instant::now() < self.until
    }
}

pub fn size(r: &Run, plan: &Option<Vec<Decision>>) -> (usize, usize, usize, usize) {
    let live = live_ops(r);
    (
        live.len(),
        live.iter().map(|&o| r.ops[o].faults.len() + r.ops[o].oom.is_some() as usize).sum(),
        plan.as_ref().map_or(0, |p| p.len()),
        live.iter().map(|&o| r.ops[o].texts.iter().map(|t| t.len() + 1).sum::<usize>()).sum(),
    )
}
pub fn live_ops(r: &Run) -> Vec<usize> {
    let mut todo: Vec<usize> =
        r.threads.iter().flat_map(|t| t.ops.iter().copied().chain(t.exit_op)).map(|o| o as usize).collect();
    let mut seen = vec![false; r.ops.len()];
    let mut out = vec![];
    while let Some(o) = todo.pop() {
        if std::mem::replace(&mut seen[o], true) {
            continue;
        }
        out.push(o);
        for (_, f) in &r.ops[o].faults {
            if let Fault::Nested(n) | Fault::DropNested(n) = f {
                todo.push(*n as usize);
            }
        }
    }
    out.sort();
    out
}

/// `fails` runs a candidate and says whether the violation is still there
pub fn minimise(
    mut run: Run,
    mut plan: Option<Vec<Decision>>,
    mut b: Budget,
    fails: &mut dyn FnMut(&Run, &Option<Vec<Decision>>) -> bool,
) -> (Run, Option<Vec<Decision>>) {
    macro_rules! attempt {
        ($r:expr, $p:expr) => {{
            if !b.left() {
                return (run, plan);
            }
            let (r, p) = ($r, $p);
            if fails(&r, &p) {
                run = r;
                plan = p;
                true
            } else {
                false
            }
        }};
    }
    loop {
        let before = size(&run, &plan);
        // whole threads
        for t in 0..run.threads.len() {
            if run.threads[t].ops.is_empty() && run.threads[t].exit_op.is_none() {
                continue;
            }
            let mut r = run.clone();
            r.threads[t].ops.clear();
            r.threads[t].exit_op = None;
            attempt!(r, plan.clone());
        }
        // threads that do nothing, at the end of the list
        while run.threads.len() > 1 && run.threads.last().is_some_and(|t| t.ops.is_empty() && t.exit_op.is_none()) {
            let mut r = run.clone();
            r.threads.pop();
            if !attempt!(r, plan.clone()) {
                break;
            }
        }
        // operations
        for t in 0..run.threads.len() {
            if run.threads[t].exit_op.is_some() {
                let mut r = run.clone();
                r.threads[t].exit_op = None;
                attempt!(r, plan.clone());
            }
            let mut i = 0;
            while i < run.threads[t].ops.len() {
                let mut r = run.clone();
                r.threads[t].ops.remove(i);
                if !attempt!(r, plan.clone()) {
                    i += 1;
                }
            }
        }
        // faults
        for o in live_ops(&run) {
            let mut i = 0;
            while i < run.ops[o].faults.len() {
                let mut r = run.clone();
                r.ops[o].faults.remove(i);
                if !attempt!(r, plan.clone()) {
                    i += 1;
                }
            }
            if run.ops[o].oom.is_some() {
                let mut r = run.clone();
                r.ops[o].oom = None;
                attempt!(r, plan.clone());
            }
        }
        // fewer repetitions of the same calls
        while run.soak() && run.passes() > 1 {
            let cut = |k: usize| (k - k / 4).min(k - 1).max(1);
            let mut r = run.clone();
            r.repeat = 1;
            r.loops = run.passes();
            if run.repeat > 1 && attempt!(r, plan.clone()) {
                continue;
            }
            let mut r = run.clone();
            if run.repeat > 1 {
                r.repeat = cut(run.repeat);
            } else {
                r.loops = cut(run.loops);
            }
            if !attempt!(r, plan.clone()) {
                break;
            }
        }
        if run.round != 0 {
            let mut r = run.clone();
            r.round = 0;
            attempt!(r, plan.clone());
        }
        let mut i = 0;
        while i < run.warm.len() {
            let mut r = run.clone();
            r.warm.remove(i);
            if !attempt!(r, plan.clone()) {
                i += 1;
            }
        }
        // scheduling decisions, in shrinking chunks
        if plan.is_some() {
            let mut chunk = plan.as_ref().unwrap().len();
            while chunk > 0 {
                let mut i = 0;
                while i < plan.as_ref().unwrap().len() {
                    let mut p = plan.clone().unwrap();
                    let end = (i + chunk).min(p.len());
                    p.drain(i..end);
                    if !attempt!(run.clone(), Some(p)) {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // texts
        for o in live_ops(&run) {
            if run.memory() {
                break;
            }
            while run.ops[o].texts.len() > 1 {
                let mut r = run.clone();
                r.ops[o].texts.pop();
                if !attempt!(r, plan.clone()) {
                    break;
                }
            }
            for k in 0..run.ops[o].texts.len() {
                let mut chunk = (run.ops[o].texts[k].chars().count() / 2).max(1);
                while chunk > 0 {
                    let mut i = 0;
                    while i < run.ops[o].texts[k].chars().count() {
                        let mut r = run.clone();
                        let cut = i..i + chunk;
                        r.ops[o].texts[k] =
                            run.ops[o].texts[k].chars().enumerate().filter(|(j, _)| !cut.contains(j)).map(|x| x.1).collect();
                        if !attempt!(r, plan.clone()) {
                            i += chunk;
                        }
                    }
                    chunk /= 2;
                }
            }
        }
        if size(&run, &plan) >= before {
            return (run, plan);
        }
    }
}

/// drop operations nothing refers to, and renumber the others; token numbers and panic payloads
/// change, so the result has to be run again
pub fn compact(r: &Run) -> Run {
    let live = live_ops(r);
    let at = |o: u32| live.iter().position(|l| *l == o as usize).unwrap() as u32;
    let mut n = r.clone();
    n.ops = live.iter().map(|&o| r.ops[o].clone()).collect();
    for op in n.ops.iter_mut() {
        for (_, f) in op.faults.iter_mut() {
            match f {
                Fault::Nested(o) | Fault::DropNested(o) => *o = at(*o),
                _ => {}
            }
        }
    }
    for t in n.threads.iter_mut() {
        for o in t.ops.iter_mut() {
            *o = at(*o);
        }
        t.exit_op = t.exit_op.map(at);
    }
    n
}
