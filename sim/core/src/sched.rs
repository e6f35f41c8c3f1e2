//! The seeded scheduler. Caller threads are real OS threads, but only the holder of the token
//! runs; every allocation, callback, futex call, clock read and sleep of simulated code comes here,
//! and who runs next is decided by the run's seed (or by the plan of a replay file).
use crate::hist::{self, tag};
use crate::rng::Rng;
use crate::sys;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 24;
const NOBODY: u32 = u32::MAX;
pub const SPURIOUS: u32 = 200;
const STACK: usize = 64 << 20;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Free,
    Ready,
    Futex(usize, u64), // address, deadline (0: none)
    Sleep(u64),
    Stalled,
    Done,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Alloc,
    Edge,
    Callback,
    Futex,
    Polite,
}

/// How a run is scheduled.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct SchedCfg {
    pub seed: u64,
    pub env_seed: u64,
    /// preemption probabilities, one in n; 0: never
    pub alloc: u32,
    pub edge: u32,
    pub callback: u32,
    pub futex: u32,
    pub spurious: u32,
    /// relative speed of each thread
    pub weights: Vec<u32>,
    /// If not empty, threads have priorities: the first ready one in a seeded order runs, and at
    /// these steps of the run the running one becomes the last.
    pub demote: Vec<u64>,
    pub step_cap: u64,
}

/// one departure from the default decision: at its `y`-th decision point `thread` does `target`
pub type Decision = (u32, u32, u32);

struct Th {
    word: AtomicU32,
    st: St,
    y: u32,
    plan: Vec<(u32, u32)>,
    plan_i: usize,
    weight: u32,
    woken: bool,
    pthread: u64,
    prio: i64,
}

struct Sim {
    th: Vec<Th>,
    n: usize,
    cur: usize,
    rng: Rng,
    env: Rng,
    cfg: SchedCfg,
    replay: bool,
    clock: u64,
    steps: u64,
    ctl: AtomicU32,
    hash: u64,
    switches: u64,
    waits: u64,
}

static mut SIM: Option<Box<Sim>> = None;

thread_local! {
    static SELF: Cell<u32> = const { Cell::new(NOBODY) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static FINISH: Guard = const { Guard };
}

struct Guard;
impl Drop for Guard {
    fn drop(&mut self) {
        finish();
    }
}

fn sim() -> &'static mut Sim {
    #[allow(static_mut_refs)]
    unsafe {
        SIM.as_mut().unwrap()
    }
}

#[inline]
pub fn in_sim() -> bool {
    SELF.with(|s| s.get()) != NOBODY && QUIET.with(|q| q.get()) == 0
}
pub fn on_sim_thread() -> bool {
    SELF.with(|s| s.get()) != NOBODY
}
/// harness code inside a simulated thread: no scheduling points, no faults, no counting
pub fn is_quiet() -> bool {
    QUIET.with(|q| q.get() > 0)
}
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    struct Q;
    impl Drop for Q {
        fn drop(&mut self) {
            QUIET.with(|q| q.set(q.get() - 1));
        }
    }
    QUIET.with(|q| q.set(q.get() + 1));
    let _q = Q;
    f()
}

/// code under test that waits even though harness code called it: only the scheduler can let the others run
pub fn loud<T>(f: impl FnOnce() -> T) -> T {
    let q = QUIET.with(|q| q.replace(0));
    let r = f();
    QUIET.with(|c| c.set(q));
    r
}

/// end the process of this run because a violation makes going on pointless
pub fn fatal(class: &str, detail: &str) -> ! {
    hist::push(tag::VIOLATION, &[], &[class, detail]);
    unsafe { sys::_exit(3) }
}

// ---- setting up a run -------------------------------------------------------------------------
pub fn setup(cfg: &SchedCfg, plan: Option<&[Decision]>) {
    let mut th = vec![];
    for i in 0..MAXT {
        let mut p: Vec<(u32, u32)> = plan
            .unwrap_or(&[])
            .iter()
            .filter(|d| d.0 as usize == i)
            .map(|d| (d.1, d.2))
            .collect();
        p.sort();
        th.push(Th {
            word: AtomicU32::new(0),
            st: St::Free,
            y: 0,
            plan: p,
            plan_i: 0,
            weight: *cfg.weights.get(i).unwrap_or(&1),
            woken: false,
            pthread: 0,
            prio: (crate::rng::mix(cfg.seed ^ i as u64) >> 33) as i64,
        });
    }
    let s = Box::new(Sim {
        th,
        n: 0,
        cur: 0,
        rng: Rng::new(cfg.seed),
        env: Rng::new(cfg.env_seed),
        cfg: cfg.clone(),
        replay: plan.is_some(),
        clock: 1_000_000_000,
        steps: 0,
        ctl: AtomicU32::new(0),
        hash: 0,
        switches: 0,
        waits: 0,
    });
    unsafe { SIM = Some(s) }
}

extern "C" {
    fn pthread_create(t: *mut u64, attr: *const [u64; 16], f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32;
    fn pthread_attr_init(attr: *mut [u64; 16]) -> i32;
    fn pthread_attr_setstacksize(attr: *mut [u64; 16], size: usize) -> i32;
    fn pthread_join(t: u64, ret: *mut *mut u8) -> i32;
}

struct Start {
    i: usize,
    body: fn(usize),
}
extern "C" fn thread_main(arg: *mut u8) -> *mut u8 {
    let start = unsafe { &*(arg as *const Start) };
    wait_token(start.i);
    SELF.with(|s| s.set(start.i as u32));
    FINISH.with(|_| ()); // registered first, so it runs after every other thread-local destructor
    (start.body)(start.i);
    std::ptr::null_mut()
}

/// Run `body(i)` for every i in `ids` as simulated threads until all of them have exited.
/// The ids are thread numbers of the whole run, so plans stay stable across rounds.
pub fn round(ids: std::ops::Range<usize>, body: fn(usize)) {
    let s = sim();
    s.n = ids.end;
    // room for deeply nested parses, whatever the limits of this machine
    let mut attr = [0u64; 16];
    unsafe {
        pthread_attr_init(&mut attr);
        pthread_attr_setstacksize(&mut attr, STACK);
    }
    let starts: Vec<Start> = ids.clone().map(|i| Start { i, body }).collect();
    for (k, i) in ids.clone().enumerate() {
        s.th[i].st = St::Ready;
        let r = unsafe {
            pthread_create(&mut s.th[i].pthread, &attr, thread_main, &starts[k] as *const _ as *mut u8)
        };
        assert!(r == 0, "pthread_create");
    }
    s.ctl.store(0, SeqCst);
    let first = if s.replay {
        ids.start
    } else {
        s.pick_ready(usize::MAX).unwrap_or(ids.start)
    };
    let first = s.first_decision(ids.start, first);
    s.cur = first;
    s.th[first].word.store(1, SeqCst);
    unsafe { sys::futex_wake_raw(s.th[first].word.as_ptr()) };
    while s.ctl.load(SeqCst) == 0 {
        unsafe { sys::futex_wait_raw(s.ctl.as_ptr(), 0) };
    }
    for i in ids {
        unsafe { pthread_join(s.th[i].pthread, std::ptr::null_mut()) };
    }
}

impl Sim {
    /// the choice of the thread that starts a round, recorded as a decision of the round's first thread
    fn first_decision(&mut self, key: usize, random: usize) -> usize {
        let y = self.tick(key);
        let mut target = key;
        if self.replay {
            if let Some(to) = self.planned(key, y) {
                target = to as usize;
            }
        } else {
            target = random;
        }
        if target >= self.n || self.th[target].st != St::Ready {
            target = key;
        }
        if target != key {
            hist::push(tag::SWITCH, &[key as u64, y as u64, target as u64], &[]);
        }
        self.note(key, y, target);
        target
    }
    fn note(&mut self, cur: usize, y: u32, target: usize) {
        self.hash = crate::rng::mix(self.hash ^ ((cur as u64) << 48 | (target as u64) << 40 | y as u64));
    }
    fn planned(&mut self, cur: usize, y: u32) -> Option<u32> {
        let t = &mut self.th[cur];
        while t.plan_i < t.plan.len() && t.plan[t.plan_i].0 < y {
            t.plan_i += 1;
        }
        match t.plan.get(t.plan_i) {
            Some(&(py, to)) if py == y => Some(to),
            _ => None,
        }
    }
    fn tick(&mut self, cur: usize) -> u32 {
        self.steps += 1;
        self.clock += 1000;
        if self.steps > self.cfg.step_cap {
            fatal("step-cap", "the run did not finish within its step budget");
        }
        self.th[cur].y += 1;
        self.th[cur].y
    }
    fn pick_ready(&mut self, except: usize) -> Option<usize> {
        if !self.cfg.demote.is_empty() {
            return self.first_ready().filter(|t| *t != except);
        }
        let mut total = 0usize;
        for i in 0..self.n {
            if i != except && self.th[i].st == St::Ready {
                total += self.th[i].weight.max(1) as usize;
            }
        }
        if total == 0 {
            return None;
        }
        let mut r = self.rng.below(total);
        for i in 0..self.n {
            if i != except && self.th[i].st == St::Ready {
                let w = self.th[i].weight.max(1) as usize;
                if r < w {
                    return Some(i);
                }
                r -= w;
            }
        }
        None
    }
    fn first_ready(&self) -> Option<usize> {
        (0..self.n).filter(|&i| self.th[i].st == St::Ready).max_by_key(|&i| (self.th[i].prio, i))
    }
    /// strict priorities: is somebody else to run now?
    fn by_priority(&mut self, cur: usize) -> Option<usize> {
        if self.cfg.demote.binary_search(&self.steps).is_ok() {
            self.th[cur].prio = -(self.steps as i64);
        }
        self.first_ready().filter(|t| *t != cur)
    }
    fn next_ready(&self, cur: usize) -> Option<usize> {
        (1..=self.n).map(|d| (cur + d) % self.n).find(|&i| self.th[i].st == St::Ready)
    }
}

fn wait_token(me: usize) {
    let w = &sim().th[me].word;
    while w.load(SeqCst) == 0 {
        unsafe { sys::futex_wait_raw(w.as_ptr(), 0) };
    }
    w.store(0, SeqCst);
}
fn pass(to: usize) {
    let s = sim();
    s.cur = to;
    let w = &s.th[to].word;
    w.store(1, SeqCst);
    unsafe { sys::futex_wake_raw(w.as_ptr()) };
}

/// A point where the current thread may be preempted.
pub fn point(kind: Kind) {
    if !in_sim() {
        return;
    }
    let s = sim();
    let cur = s.cur;
    let y = s.tick(cur);
    let target = if s.replay {
        s.planned(cur, y).map(|t| t as usize)
    } else {
        let den = match kind {
            Kind::Alloc => s.cfg.alloc,
            Kind::Edge => s.cfg.edge,
            Kind::Callback => s.cfg.callback,
            Kind::Futex => s.cfg.futex,
            Kind::Polite => 1,
        };
        if !s.cfg.demote.is_empty() {
            if kind == Kind::Polite {
                s.th[cur].prio = -(s.steps as i64);
            }
            s.by_priority(cur)
        } else if den != 0 && s.rng.below(den as usize) == 0 {
            s.pick_ready(cur)
        } else {
            None
        }
    };
    let target = match target {
        None if kind == Kind::Polite => s.next_ready(cur).filter(|t| *t != cur),
        t => t,
    };
    if let Some(t) = target {
        if t != cur && t < s.n && s.th[t].st == St::Ready {
            hist::push(tag::SWITCH, &[cur as u64, y as u64, t as u64], &[]);
            s.note(cur, y, t);
            s.switches += 1;
            pass(t);
            wait_token(cur);
        }
    }
}

/// The current thread cannot go on (its state says why): run somebody else until it can.
fn block(cur: usize, wait: bool) {
    let s = sim();
    let y = s.tick(cur);
    loop {
        let default = s.next_ready(cur);
        if let Some(default) = default {
            let t = if s.replay {
                s.planned(cur, y).map(|t| t as usize)
            } else {
                s.pick_ready(usize::MAX)
            };
            let t = match t {
                Some(t) if t < s.n && s.th[t].st == St::Ready => t,
                _ => default,
            };
            if t != default {
                hist::push(tag::SWITCH, &[cur as u64, y as u64, t as u64], &[]);
            }
            s.note(cur, y, t);
            if t == cur {
                return;
            }
            pass(t);
            if wait {
                wait_token(cur);
            }
            return;
        }
        // nobody can run: let time pass, then let stalled calls go on
        let mut earliest = u64::MAX;
        for i in 0..s.n {
            match s.th[i].st {
                St::Futex(_, d) if d != 0 => earliest = earliest.min(d),
                St::Sleep(d) => earliest = earliest.min(d),
                _ => {}
            }
        }
        if earliest != u64::MAX {
            s.clock = s.clock.max(earliest);
            for i in 0..s.n {
                match s.th[i].st {
                    St::Futex(_, d) if d != 0 && d <= s.clock => {
                        s.th[i].st = St::Ready;
                        s.th[i].woken = false;
                    }
                    St::Sleep(d) if d <= s.clock => s.th[i].st = St::Ready,
                    _ => {}
                }
            }
            continue;
        }
        let blocked = (0..s.n).filter(|&i| matches!(s.th[i].st, St::Futex(..))).count();
        if let Some(i) = (0..s.n).find(|&i| s.th[i].st == St::Stalled) {
            if blocked > 0 {
                hist::push(
                    tag::VIOLATION,
                    &[],
                    &["blocked-by-stall", "a call waits for a call that is stalled in user code"],
                );
            }
            hist::push(tag::STALLED_RELEASE, &[i as u64], &[]);
            s.clock += 3_600_000_000_000;
            s.th[i].st = St::Ready;
            continue;
        }
        if blocked > 0 {
            fatal("deadlock", "every thread waits for another one");
        }
        // all done
        s.ctl.store(1, SeqCst);
        unsafe { sys::futex_wake_raw(s.ctl.as_ptr()) };
        return;
    }
}

fn finish() {
    let s = sim();
    let cur = s.cur;
    s.th[cur].st = St::Done;
    SELF.with(|x| x.set(NOBODY));
    block(cur, false);
}

/// suspended in user code until no other thread can make any progress
pub fn stall() {
    if !on_sim_thread() {
        return;
    }
    let s = sim();
    let cur = s.cur;
    s.th[cur].st = St::Stalled;
    block(cur, true);
}

pub fn polite_yield() {
    point(Kind::Polite)
}

// ---- seams ------------------------------------------------------------------------------------
/// called before every allocation; true: this one fails
#[inline]
pub fn on_alloc(size: usize) -> bool {
    if !in_sim() {
        return false;
    }
    let fail = crate::work::count_alloc(size);
    if fail {
        return true;
    }
    point(Kind::Alloc);
    false
}
#[inline]
pub fn on_dealloc() {
    if in_sim() {
        point(Kind::Alloc);
    }
}

pub fn env_seed() -> u64 {
    sim().cfg.env_seed
}
pub fn random_byte() -> u8 {
    sim().env.next() as u8
}
pub fn read_clock() -> u64 {
    sim().clock
}
pub fn sleep_ns(ns: u64) {
    sleep_until(sim().clock + ns)
}
pub fn sleep_until(t: u64) {
    let s = sim();
    let cur = s.cur;
    if t > s.clock {
        crate::work::waits("slept");
        s.th[cur].st = St::Sleep(t);
        block(cur, true);
    }
}

/// futex(2) as used by std: WAIT, WAIT_BITSET, WAKE, WAKE_BITSET, private or not
pub unsafe fn futex(addr: usize, op: i32, val: u32, timeout: *const [i64; 2], _mask: u32) -> i64 {
    let cmd = op & 0x7f;
    point(Kind::Futex);
    let s = sim();
    let cur = s.cur;
    match cmd {
        0 | 9 => {
            if (*(addr as *const AtomicU32)).load(SeqCst) != val {
                return -11; // EAGAIN
            }
            let mut deadline = 0;
            if !timeout.is_null() {
                let t = ((*timeout)[0] as u64).saturating_mul(1_000_000_000) + (*timeout)[1] as u64;
                deadline = (if cmd == 9 { t } else { s.clock + t }).max(1);
            }
            crate::work::waits("waited for another thread");
            // spurious wake-up: legal at any time, so inject some
            let y = s.tick(cur);
            let sp = if s.replay {
                s.planned(cur, y) == Some(SPURIOUS)
            } else {
                s.cfg.spurious != 0 && s.rng.below(s.cfg.spurious as usize) == 0
            };
            if sp {
                hist::push(tag::SWITCH, &[cur as u64, y as u64, SPURIOUS as u64], &[]);
                hist::push(tag::FAULT, &[], &["spurious-wakeup"]);
                return -4; // EINTR
            }
            s.th[cur].woken = false;
            s.waits += 1;
            s.th[cur].st = St::Futex(addr, deadline);
            block(cur, true);
            if s.th[cur].woken {
                0
            } else {
                -110 // ETIMEDOUT
            }
        }
        1 | 10 => {
            let mut woken = 0;
            while woken < val as usize {
                let waiting: Vec<usize> = quiet(|| {
                    (0..s.n)
                        .filter(|&i| matches!(s.th[i].st, St::Futex(a, _) if a == addr))
                        .collect()
                });
                if waiting.is_empty() {
                    quiet(|| drop(waiting));
                    break;
                }
                let mut w = waiting[0];
                if waiting.len() > 1 {
                    let y = s.tick(cur);
                    let t = if s.replay {
                        s.planned(cur, y).map(|t| t as usize)
                    } else {
                        Some(waiting[s.rng.below(waiting.len())])
                    };
                    if let Some(t) = t {
                        if waiting.contains(&t) && t != w {
                            w = t;
                            hist::push(tag::SWITCH, &[cur as u64, y as u64, t as u64], &[]);
                        }
                    }
                }
                quiet(|| drop(waiting));
                s.th[w].woken = true;
                s.th[w].st = St::Ready;
                woken += 1;
            }
            point(Kind::Futex);
            woken as i64
        }
        _ => fatal("harness", "unsupported futex operation"),
    }
}

/// steps, simulated nanoseconds, hash of all decisions, preemptions, times a thread had to wait
pub fn totals() -> [u64; 5] {
    let s = sim();
    [s.steps, s.clock - 1_000_000_000, s.hash, s.switches, s.waits]
}
pub fn current() -> usize {
    SELF.with(|s| s.get()) as usize
}
