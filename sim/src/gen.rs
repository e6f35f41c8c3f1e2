//! Workloads: everything about a run is derived from (seed, property, index).
use dstcore::model::{self, predict, Catalogue, Fs, Outcome, SrcKind};
use dstcore::rng::{mix, Rng};
use dstcore::sched::SchedCfg;
use dstcore::types::Kind;
use dstcore::work::{self, Fault, Mode, Op, Run, Slot, ThreadW};

/// what a property's runs are made of; chances are in percent
#[derive(Clone, Debug, Default)]
pub struct Prof {
    pub threads: (usize, usize),
    pub ops: (usize, usize),
    pub get: usize,
    pub from_str: usize,
    /// an operation on a site that cannot work
    pub bad: usize,
    /// an operation gets faults at all
    pub faulty: usize,
    pub err: usize,
    pub panic: usize,
    pub stall: usize,
    pub yields: usize,
    pub nested: usize,
    pub drop_nested: usize,
    pub drift: usize,
    /// the text of an error is written
    pub render: usize,
    pub exit_op: usize,
    pub cold: usize,
    pub oom: bool,
    pub pairs: bool,
    pub repeat: usize,
    /// only sites with: hand-written types / borrowed results / user callbacks
    pub need_man: bool,
    pub need_borrow: bool,
    pub need_cb: bool,
    /// a chain of many nested parses
    pub deep: usize,
}

pub fn profile(p: &str) -> Prof {
    let base = Prof {
        threads: (1, 5),
        ops: (1, 5),
        get: 8,
        from_str: 8,
        faulty: 25,
        err: 3,
        yields: 2,
        cold: 50,
        ..Default::default()
    };
    match p {
        "C01" => Prof { nested: 1, panic: 1, exit_op: 5, ..base },
        "C02" => Prof { threads: (2, 5), get: 65, from_str: 3, cold: 70, panic: 1, nested: 1, ..base },
        "C03" => Prof { deep: 1, faulty: 55, panic: 6, err: 1, nested: 1, drop_nested: 1, exit_op: 8, ..base },
        "C04" => Prof { threads: (2, 5), bad: 50, cold: 80, get: 20, from_str: 3, panic: 1, nested: 1, ..base },
        "C05" => Prof { faulty: 50, err: 4, panic: 2, nested: 2, drop_nested: 1, get: 0, need_cb: true, ..base },
        "C06" => Prof { faulty: 85, err: 6, panic: 0, nested: 1, get: 0, need_cb: true, ..base },
        "C07" => Prof { faulty: 80, err: 4, panic: 4, nested: 2, drop_nested: 2, drift: 1, get: 0, need_cb: true, ..base },
        "C08" => Prof { faulty: 90, drift: 8, err: 1, nested: 1, get: 0, from_str: 10, need_man: true, ..base },
        "C09" => Prof { deep: 6, faulty: 85, nested: 6, drop_nested: 4, panic: 1, err: 1, exit_op: 30, ..base },
        "C10" => Prof { faulty: 40, panic: 1, nested: 1, get: 0, from_str: 4, need_borrow: true, ..base },
        "C11" | "C23" => Prof { render: 30, threads: (1, 4), ops: (1, 3), faulty: 45, err: 3, panic: 3, nested: 1, repeat: 240, exit_op: 10, from_str: 12, bad: 5, ..base },
        "C13" => Prof { threads: (1, 3), ops: (1, 3), oom: true, faulty: 10, cold: 70, get: 15, from_str: 12, ..base },
        "C14" => Prof { threads: (1, 3), ops: (1, 2), pairs: true, faulty: 60, err: 5, panic: 3, ..base },
        "C15" => Prof { deep: 1, threads: (2, 5), faulty: 70, stall: 8, nested: 2, drop_nested: 1, panic: 1, cold: 65, exit_op: 5, ..base },
        "C22" => Prof { faulty: 50, err: 4, panic: 4, nested: 1, drop_nested: 1, bad: 12, get: 10, exit_op: 10, deep: 1, ..base },
        "C24" => Prof { threads: (2, 8), faulty: 30, err: 3, panic: 2, nested: 1, stall: 1, get: 15, cold: 25, exit_op: 5, ..base },
        "C25" => Prof { faulty: 85, err: 10, panic: 1, stall: 1, nested: 2, render: 85, deep: 1, exit_op: 5, get: 0, bad: 1, ..base },
        _ => panic!("no such property: {p}"),
    }
}

pub fn has(fmt: &'static [model::Elem], f: &dyn Fn(&model::Ph) -> bool) -> bool {
    model::phs(fmt).iter().any(|p| {
        f(p) || match p.ty {
            model::Ty::Struct(d) => has(d.fmt, f),
            model::Ty::Enum(e) => e.variants.iter().any(|v| has(v.fmt, f)),
            _ => false,
        }
    })
}

pub struct Gen<'a> {
    pub cat: &'a Catalogue,
    prof: Prof,
    rng: Rng,
    ops: Vec<Op>,
    hot: Vec<usize>,
    hot_bad: Vec<usize>,
    rel: u32,
}

fn seed_of(seed: u64, prop: &str, idx: u64) -> u64 {
    let p = prop.bytes().fold(7u64, |h, b| mix(h ^ b as u64));
    mix(mix(seed ^ p) ^ idx)
}

/// the sites a property's runs may use: usable ones, unusable ones
pub fn eligible(cat: &Catalogue, p: &Prof) -> (Vec<usize>, Vec<usize>) {
    let all = 0..cat.sites.len();
    let man = |s: usize| has(cat.sites[s].fmt, &|p| matches!(p.ty, model::Ty::M(..) | model::Ty::Mo(..)));
    let borrow = |s: usize| has(cat.sites[s].fmt, &|p| matches!(p.ty, model::Ty::M(..) | model::Ty::Str | model::Ty::Cow));
    let cbs = |s: usize| {
        cat.sites[s].src == SrcKind::In
            || has(cat.sites[s].fmt, &|p| matches!(p.ty, model::Ty::M(..) | model::Ty::Mo(..) | model::Ty::P(..)))
    };
    let ok = |s: &usize| {
        !cat.sites[*s].bad
            && (!p.need_man || man(*s))
            && (!p.need_borrow || borrow(*s))
            && (!p.need_cb || cbs(*s))
            && (!p.pairs || cat.sites[*s].from_str != Fs::No)
    };
    (all.clone().filter(ok).collect(), all.filter(|s| cat.sites[*s].bad).collect())
}

pub fn generate(cat: &Catalogue, prop: &str, seed: u64, idx: u64) -> Run {
    let prof = profile(prop);
    let mut rng = Rng::new(seed_of(seed, prop, idx));
    let (good, bad) = eligible(cat, &prof);
    let n_hot = *rng.pick(&[1, 1, 2, 2, 3, 5]);
    // every site in its turn, with some others
    let hot = (0..n_hot).map(|k| if k == 0 { good[idx as usize % good.len()] } else { *rng.pick(&good) }).collect();
    let hot_bad = (0..rng.range(1, 2)).map(|_| *rng.pick(&bad)).collect();
    let rel = rng.below(3) as u32;
    let mut g = Gen { cat, prof: prof.clone(), rng, ops: vec![], hot, hot_bad, rel };
    let mut nt = g.rng.range(prof.threads.0, prof.threads.1);
    let mut ops = prof.ops;
    if prof.repeat == 0 && !prof.oom {
        match g.rng.below(100) {
            // many threads; many calls
            0..=2 => nt = g.rng.range(6, 14),
            3..=4 => ops = if prof.pairs { (8, 25) } else { (20, 90) },
            // very many different calls
            5 if g.rng.chance(1, 4) => {
                nt = 1;
                ops = (300, 1500);
            }
            _ => {}
        }
    }
    if ops.0 > prof.ops.0 {
        nt = nt.min(3);
    }
    let deep = if g.pct(prof.deep) { g.rng.below(nt) } else { usize::MAX };
    let mut threads = vec![];
    for k in 0..nt {
        let mut t = ThreadW::default();
        if k == deep {
            let n = *g.rng.pick(&[10, 20, 40, 70, 120]);
            let o = g.chain(n);
            t.ops.push(o);
        }
        for _ in 0..g.rng.range(ops.0, ops.1) {
            if prof.pairs {
                let (a, b) = g.pair();
                t.ops.extend(if g.rng.chance(1, 2) { [a, b] } else { [b, a] });
                continue;
            }
            let o = g.op(0);
            t.ops.push(o);
        }
        if g.pct(prof.exit_op) {
            t.exit_op = Some(g.op(1));
        }
        threads.push(t);
    }
    if prof.pairs && nt > 1 && g.rng.chance(1, 2) {
        // the two halves of each pair on different threads
        let mut all: Vec<u32> = threads.iter().flat_map(|t| t.ops.clone()).collect();
        for i in (1..all.len()).rev() {
            let j = g.rng.below(i + 1);
            all.swap(i, j);
        }
        for t in threads.iter_mut() {
            t.ops.clear();
        }
        for (i, o) in all.into_iter().enumerate() {
            threads[i % nt].ops.push(o);
        }
    }
    let mut repeat = prof.repeat;
    if repeat > 0 {
        // the same texts throughout leave what is kept nearly constant, and show smaller leaks
        if g.rng.chance(1, 2) {
            repeat = *g.rng.pick(&[repeat, 4 * repeat]);
            g.ops.iter_mut().for_each(|o| o.texts.truncate(1));
        } else {
            g.more_texts(repeat);
        }
    }
    let Gen { mut rng, ops, .. } = g;
    // which sites have been used before
    let mut used: Vec<(usize, bool)> = ops.iter().map(|o| (o.site, o.rel)).collect();
    used.sort();
    used.dedup();
    let warm = match rng.below(100) {
        x if x < prof.cold => vec![],
        _ if rng.chance(1, 2) => used,
        _ => used.into_iter().filter(|_| rng.chance(1, 2)).collect(),
    };
    let mut sched = sched_cfg(&mut rng, nt);
    if ops.len() > 40 {
        // keep the history of long runs at a sensible size
        sched.alloc = if sched.alloc == 0 { 0 } else { sched.alloc.max(40) };
        sched.edge = if sched.edge == 0 { 0 } else { sched.edge.max(100) };
    }
    if prof.repeat > 0 {
        // what counts here is the number of calls
        sched.alloc = if sched.alloc == 0 { 0 } else { sched.alloc.max(600) };
        sched.edge = if sched.edge == 0 { 0 } else { 2000 };
        sched.callback = sched.callback.max(2);
    }
    sched.step_cap += ops.len() as u64 * 200_000;
    sched.step_cap *= repeat.max(1) as u64;
    let round = if rng.chance(1, 6) { rng.range(1, nt) } else { 0 };
    let mut run = Run { ops, threads, round, repeat: repeat.max(1), loops: 0, warm, sched };
    if prof.repeat == 0 && !prof.oom {
        soak(cat, &mut run, &mut rng);
    }
    run
}

/// `from_str` compiles the pattern every time
fn slow(site: &model::SiteDef) -> bool {
    model::size(site.fmt) > 100
}

/// make it a run of the same calls over and over, sometimes
fn soak(cat: &Catalogue, run: &mut Run, rng: &mut Rng) {
    if run.ops.iter().any(|o| o.mode == Mode::FromStr && slow(&cat.sites[o.site])) {
        return;
    }
    let size = run.ops.iter().map(|o| model::size(cat.sites[o.site].fmt)).max().unwrap_or(1);
    let calls = match rng.below(4000) {
        0..=8 if size > 100 => return,
        0 => 70_000,
        1..=8 => rng.range(1500, 8000),
        9..=120 => rng.range(100, 1200),
        _ => return,
    };
    if calls > 1200 {
        run.threads.truncate(1);
        run.threads[0].ops.truncate(1);
    }
    for t in run.threads.iter_mut() {
        t.exit_op = None;
    }
    let n = crate::mini::live_ops(run).len();
    let passes = (calls / n).max(2);
    run.repeat = *rng.pick(&[1, 1, 2, 5, 20]);
    run.loops = (passes / run.repeat).max(1);
    let s = &mut run.sched;
    s.alloc = if s.alloc == 0 { 0 } else { s.alloc.max(200) };
    s.edge = if s.edge == 0 { 0 } else { s.edge.max(400) };
    s.step_cap += (n * passes) as u64 * (20_000 + size as u64 * 500);
}

fn sched_cfg(rng: &mut Rng, nt: usize) -> SchedCfg {
    let mut c = SchedCfg {
        seed: rng.next(),
        env_seed: rng.next(),
        alloc: *rng.pick(&[0, 3, 10, 40, 150, 600, 2500]),
        edge: *rng.pick(&[0, 3, 10, 30, 100, 400]),
        callback: *rng.pick(&[0, 1, 2, 4, 10]),
        futex: *rng.pick(&[0, 1, 2, 5]),
        spurious: *rng.pick(&[0, 0, 2, 5]),
        weights: vec![],
        demote: vec![],
        step_cap: 4_000_000,
    };
    if nt == 1 {
        c.alloc = 0;
        c.edge = 0;
    }
    if rng.chance(1, 3) {
        // slow and fast threads
        c.weights = (0..nt).map(|_| *rng.pick(&[1, 1, 3, 20])).collect();
    }
    if nt > 1 && rng.chance(1, 4) {
        // strict priorities with a few changes, anywhere between the first steps and far into the run
        let far = *rng.pick(&[100, 1000, 5000, 20_000]);
        c.demote = (0..rng.range(1, 6)).map(|_| 1 + rng.below(far) as u64).collect();
        c.demote.sort();
        c.demote.dedup();
    }
    c
}

impl Gen<'_> {
    fn pct(&mut self, p: usize) -> bool {
        self.rng.below(100) < p
    }
    fn pick_rel(&mut self) -> bool {
        match self.rel {
            0 => false,
            1 => true,
            _ => self.rng.chance(1, 2),
        }
    }
    fn text(&mut self, site: usize) -> String {
        let fmt = self.cat.sites[site].fmt;
        let t = model::gen_fmt(fmt, &mut self.rng);
        match self.rng.below(100) {
            0..=74 => t,
            75..=91 => model::mutate(&t, &mut self.rng),
            92..=94 => {
                let m = model::mutate(&t, &mut self.rng);
                model::mutate(&m, &mut self.rng)
            }
            95..=96 => {
                let other = *self.rng.pick(&self.hot.clone());
                model::gen_fmt(self.cat.sites[other].fmt, &mut self.rng)
            }
            97 => format!("{t}{t}"),
            98 => format!("{t}\n"),
            _ => String::new(),
        }
    }
    /// nested to depth `depth`; the index of the new operation
    fn op(&mut self, depth: usize) -> u32 {
        let bad = self.prof.bad;
        let site = if self.pct(bad) {
            *self.rng.pick(&self.hot_bad.clone())
        } else {
            *self.rng.pick(&self.hot.clone())
        };
        let def = &self.cat.sites[site];
        let (get, fs) = (self.prof.get, self.prof.from_str);
        let mode = if def.get && self.pct(get) {
            Mode::GetRegex
        } else if def.from_str != Fs::No && self.pct(fs * 4) && (!slow(def) || self.prof.repeat == 0 && self.pct(25)) {
            Mode::FromStr
        } else {
            Mode::Scan
        };
        let mut texts = vec![self.text(site)];
        if def.src == SrcKind::In {
            for _ in 0..2 {
                texts.push(self.text(site));
            }
        }
        let op = Op { site, rel: self.pick_rel(), mode, texts, faults: vec![], oom: None };
        let i = self.ops.len();
        self.ops.push(op);
        let faulty = self.prof.faulty;
        if mode != Mode::GetRegex && !def.bad && self.pct(faulty) {
            self.faults(i, depth);
        }
        let render = self.prof.render;
        if mode != Mode::GetRegex && !def.bad && self.pct(render) {
            self.render(i, depth);
        }
        i as u32
    }
    /// write the error, if it is one
    fn render(&mut self, i: usize, depth: usize) {
        let p = predict(self.cat, &self.ops[i], i);
        let Outcome::Err(chain) = p.outcome else { return };
        let own = chain.contains("E(");
        let n = self.rng.range(1, 4);
        for _ in 0..n {
            let room = match self.rng.below(6) {
                0 => self.rng.below(12) as u32,
                1 => self.rng.below(60) as u32,
                2 => self.rng.below(200) as u32,
                _ => work::NO_LIMIT,
            };
            let debug = self.rng.chance(1, 3);
            self.ops[i].faults.push((Slot::Hold, Fault::Render(room * 2 + debug as u32)));
        }
        for k in 0..n as u32 {
            if !own || !self.rng.chance(1, 2) {
                continue;
            }
            let f = match self.rng.below(8) {
                0 => Fault::Err,
                1 => Fault::Panic(if self.prof.repeat > 0 { 1 } else { self.rng.below(work::PAYLOADS as usize) as u8 }),
                2 => Fault::Stall,
                3..=5 if depth < 3 && self.ops.len() <= 60 => Fault::Nested(self.op(depth + 1)),
                _ => Fault::Yield,
            };
            self.ops[i].faults.push((Slot::Render(k), f));
        }
    }
    /// parses nested in each other, up to n deep
    fn chain(&mut self, n: usize) -> u32 {
        let first = self.ops.len();
        let mut outer: Option<usize> = None;
        for _ in 0..n {
            let faulty = std::mem::replace(&mut self.prof.faulty, 0);
            let i = self.op(9) as usize;
            self.prof.faulty = faulty;
            if let Some(o) = outer {
                let p = predict(self.cat, &self.ops[o], o);
                let mut slots: Vec<Slot> = (0..p.cbs.len() as u32).map(Slot::Cb).collect();
                slots.extend((0..p.dflts.len() as u32).map(Slot::Dflt));
                if matches!(p.outcome, Outcome::Ok(_) | Outcome::Err(_)) {
                    slots.push(Slot::Hold);
                }
                if slots.is_empty() {
                    self.ops.pop();
                    continue;
                }
                let slot = *self.rng.pick(&slots);
                let drop = self.rng.chance(1, 5)
                    && matches!(slot, Slot::Cb(c) if !matches!(p.cbs[c as usize].kind, Kind::Eval | Kind::Deref));
                let f = if drop { Fault::DropNested(i as u32) } else { Fault::Nested(i as u32) };
                self.ops[o].faults.push((slot, f));
            }
            outer = Some(i);
        }
        first as u32
    }
    fn pair(&mut self) -> (u32, u32) {
        let site = *self.rng.pick(&self.hot.clone());
        let rel = self.pick_rel();
        let texts = vec![self.text(site)];
        let a = self.ops.len();
        self.ops.push(Op { site, rel, mode: Mode::Scan, texts, faults: vec![], oom: None });
        let faulty = self.prof.faulty;
        if self.pct(faulty) {
            self.faults(a, 0);
        }
        let b = self.ops.len();
        let other = Op { mode: Mode::FromStr, ..self.ops[a].clone() };
        self.ops.push(other);
        (a as u32, b as u32)
    }
    fn faults(&mut self, i: usize, depth: usize) {
        let p = predict(self.cat, &self.ops[i], i);
        let n_cb = p.cbs.len();
        let n_df = p.dflts.len();
        let returns = matches!(p.outcome, Outcome::Ok(_) | Outcome::Err(_));
        if n_cb + n_df == 0 && !returns {
            return;
        }
        let prof = self.prof.clone();
        let n = 1 + self.rng.below(3);
        let (mut terminal, mut dflt_panic, mut drift) = (false, false, false);
        for _ in 0..n {
            let w = [prof.err, prof.panic, prof.stall, prof.yields, prof.nested, prof.drop_nested, prof.drift];
            let total: usize = w.iter().sum();
            if total == 0 {
                return;
            }
            let mut r = self.rng.below(total);
            let mut what = 0;
            while r >= w[what] {
                r -= w[what];
                what += 1;
            }
            // where
            let slot = match what {
                0 | 5 | 6 => {
                    // only some kinds of callbacks can do this
                    let ok: Vec<u32> = (0..n_cb as u32)
                        .filter(|c| {
                            let k = p.cbs[*c as usize].kind;
                            match what {
                                0 => matches!(k, Kind::Conv | Kind::Man | Kind::TryFrom | Kind::FMap),
                                6 => k == Kind::Man,
                                _ => !matches!(k, Kind::Eval | Kind::Deref),
                            }
                        })
                        .collect();
                    if ok.is_empty() {
                        continue;
                    }
                    Slot::Cb(*self.rng.pick(&ok))
                }
                _ => {
                    let hold = (what >= 2 && returns) as usize;
                    let total = n_cb + n_df + hold;
                    if total == 0 {
                        continue;
                    }
                    let k = self.rng.below(total);
                    if k < n_cb {
                        Slot::Cb(k as u32)
                    } else if k < n_cb + n_df {
                        Slot::Dflt((k - n_cb) as u32)
                    } else {
                        Slot::Hold
                    }
                }
            };
            let is_dflt = matches!(slot, Slot::Dflt(_));
            let f = match what {
                0 => {
                    let Slot::Cb(c) = slot else { continue };
                    if p.cbs[c as usize].kind == Kind::FMap {
                        Fault::None
                    } else {
                        Fault::Err
                    }
                }
                1 => Fault::Panic(match self.rng.below(work::PAYLOADS as usize) as u8 {
                    2 if prof.repeat > 0 => 1,
                    k => k,
                }),
                2 => Fault::Stall,
                3 => Fault::Yield,
                4 | 5 => {
                    if depth >= 3 || self.ops.len() > 60 {
                        continue;
                    }
                    let o = self.op(depth + 1);
                    if what == 4 {
                        Fault::Nested(o)
                    } else {
                        Fault::DropNested(o)
                    }
                }
                _ => Fault::Drift(*self.rng.pick(&[-2, -1, -1, -1, 1, 1, 1, 2, 3, 256])),
            };
            if self.ops[i].faults.iter().any(|x| x.0 == slot) {
                continue;
            }
            match f {
                Fault::Panic(_) if is_dflt => {
                    if terminal || drift || dflt_panic {
                        continue;
                    }
                    dflt_panic = true;
                }
                Fault::Err | Fault::None | Fault::Panic(_) => {
                    if dflt_panic {
                        continue;
                    }
                    terminal = true;
                }
                Fault::Drift(_) => {
                    if dflt_panic || drift {
                        continue;
                    }
                    drift = true;
                }
                _ => {}
            }
            self.ops[i].faults.push((slot, f));
        }
    }
    /// one text per repetition, most of them new
    fn more_texts(&mut self, n: usize) {
        for i in 0..self.ops.len() {
            let site = self.ops[i].site;
            let first = self.ops[i].texts[0].clone();
            let mut t = vec![first.clone()];
            while t.len() < n {
                t.push(if self.rng.chance(1, 8) { first.clone() } else { self.text(site) });
            }
            self.ops[i].texts = t;
        }
    }
}
