//! Workloads, and the execution of one operation inside a simulated thread.
use crate::hist::{self, tag};
use crate::sched::{self, quiet, SchedCfg};
use crate::types::*;
use std::any::Any;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const NONE: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Scan,
    GetRegex,
    FromStr,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    Err,
    None,
    /// with this kind of payload
    Panic(u8),
    Stall,
    Yield,
    Nested(u32),
    DropNested(u32),
    Drift(i32),
    /// the result is an error: write it to a sink; which form, and when the sink fails: see `Sink`
    Render(u32),
}
/// which callback of the operation: its n-th ordinary one, its n-th default expression, or while
/// its result is held
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Slot {
    Cb(u32),
    Dflt(u32),
    Hold,
    /// the n-th time that the text of the caller's own error is asked for, while it is held
    Render(u32),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub site: usize,
    pub rel: bool,
    pub mode: Mode,
    /// the text, and what further Derefs of the input would yield
    pub texts: Vec<String>,
    pub faults: Vec<(Slot, Fault)>,
    /// fail the n-th allocation (1-based), and all later ones if true
    pub oom: Option<(u32, bool)>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct ThreadW {
    pub ops: Vec<u32>,
    pub exit_op: Option<u32>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Run {
    pub ops: Vec<Op>,
    pub threads: Vec<ThreadW>,
    /// how many threads live at the same time: the threads run in rounds of this size
    pub round: usize,
    /// number of times the whole workload is repeated, with new threads each time
    pub repeat: usize,
    /// Not 0: a run of the same calls over and over, in each thread that many times per repetition.
    /// Its first pass is recorded; the others have to be like it. 0: repetitions are memory runs.
    pub loops: usize,
    /// call sites used once before the run starts
    pub warm: Vec<(usize, bool)>,
    pub sched: SchedCfg,
}

impl Run {
    pub fn soak(&self) -> bool {
        self.loops > 0
    }
    pub fn memory(&self) -> bool {
        self.repeat > 1 && self.loops == 0
    }
    /// how often each call is made
    pub fn passes(&self) -> usize {
        self.repeat.max(1) * self.loops.max(1)
    }
}

pub enum Act {
    Go,
    Err,
    None,
    Drift(i32),
}

// ---- call sites -------------------------------------------------------------------------------
pub type SiteFn = fn(&mut SiteCx);
pub struct SiteFns {
    pub scan: SiteFn,
    pub get: Option<SiteFn>,
    pub from_str: Option<SiteFn>,
}

static mut RUN: Option<&'static Run> = None;
static mut FNS: [&[SiteFns]; 2] = [&[], &[]];

pub fn install(run: &'static Run, dbg: &'static [SiteFns], rel: &'static [SiteFns]) {
    unsafe {
        RUN = Some(run);
        FNS = [dbg, rel];
    }
}
fn run() -> &'static Run {
    unsafe { RUN.unwrap() }
}
fn fns(op: &Op) -> &'static SiteFns {
    unsafe { &FNS[op.rel as usize][op.site] }
}

// ---- per-operation context --------------------------------------------------------------------
struct Ctx {
    op: u32,
    def: &'static Op,
    cb: u32,
    dflt: u32,
    seq: u32,
    dseq: u32,
    drop_op: u32,
    base: usize,
    len: usize,
    allocs: u32,
    bytes: u64,
    ended: bool,
    /// panics that user code of this call raised, and how often the panic hook was called in it
    thrown: u32,
    hooks: u32,
    /// a call on this site has returned before this one began
    used: bool,
    /// its error is being written; how often the caller's part of it was asked for, the panic raised
    /// there, and whether it refused
    showing: bool,
    shown: u32,
    threw: u64,
    refused: bool,
}

/// sites on which a call has returned, by build and mode
static mut USED: [[[bool; 2]; 1024]; 2] = [[[false; 2]; 1024]; 2];
fn used(def: &Op) -> Option<&'static mut bool> {
    let mode = match def.mode {
        Mode::Scan => 0,
        Mode::GetRegex => 1,
        Mode::FromStr => return None,
    };
    unsafe { USED[def.rel as usize].get_mut(def.site).map(|s| &mut s[mode]) }
}
fn returned(c: &mut Ctx) {
    c.ended = true;
    if let Some(u) = used(c.def) {
        *u = true;
    }
}
/// the current thread is about to wait for another one, in code that is not the user's
pub fn waits(how: &str) {
    let Some(c) = cur() else { return };
    if c.showing {
        let s = "the text of an error";
        quiet(|| crate::sys::effects::violation("render", &format!("operation {}: writing {s} {how}", c.op)));
    }
    if c.used && !c.ended {
        quiet(|| {
            let s = format!("operation {} {how}, although a call on its site had returned before it began", c.op);
            crate::sys::effects::violation("waits", &s)
        });
    }
}

thread_local! {
    static CUR: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
    static EXIT: ExitOp = const { ExitOp(Cell::new(NONE)) };
}
struct ExitOp(Cell<u32>);
impl Drop for ExitOp {
    fn drop(&mut self) {
        if self.0.get() != NONE {
            run_op(self.0.get() as usize);
        }
    }
}

fn cur() -> Option<&'static mut Ctx> {
    let p = CUR.with(|c| c.get());
    unsafe { p.as_mut() }
}
pub fn current_op() -> u32 {
    cur().map_or(NONE, |c| c.op)
}
/// accounting and failing of allocations
pub fn count_alloc(size: usize) -> bool {
    let Some(c) = cur() else { return false };
    c.allocs += 1;
    c.bytes += size as u64;
    if let Some((n, on)) = c.def.oom {
        if !c.ended && (c.allocs == n || (on && c.allocs > n)) {
            hist::push(tag::ALLOC_FAIL, &[c.op as u64, c.allocs as u64], &[]);
            return true;
        }
    }
    false
}
pub fn token() -> Tok {
    match cur() {
        Some(c) => {
            let s = c.seq;
            c.seq += 1;
            let d = std::mem::replace(&mut c.drop_op, NONE);
            Tok::new(s, d)
        }
        None => Tok::new(0, NONE),
    }
}
pub fn default_token() -> Tok {
    match cur() {
        Some(c) => {
            let s = 5000 + c.dseq;
            c.dseq += 1;
            let d = std::mem::replace(&mut c.drop_op, NONE);
            Tok::new(s, d)
        }
        None => Tok::new(0, NONE),
    }
}
pub fn new_out() -> Out {
    let (base, len, op) = cur().map_or((0, 0, NONE), |c| (c.base, c.len, c.op));
    Out { s: String::new(), base, len, op, toks: vec![] }
}

/// every entry into user code
pub fn cb(kind: Kind, t: u32, text: &str) -> Act {
    let Some(c) = cur() else { return Act::Go };
    let (slot, idx) = match kind {
        Kind::Default => {
            c.dflt += 1;
            (Slot::Dflt(c.dflt - 1), c.dflt - 1)
        }
        Kind::Hold => (Slot::Hold, 9000),
        Kind::Render => {
            c.shown += 1;
            (Slot::Render(c.shown - 1), 8000 + c.shown - 1)
        }
        _ => {
            c.cb += 1;
            (Slot::Cb(c.cb - 1), c.cb - 1)
        }
    };
    hist::push(tag::CB, &[c.op as u64, idx as u64, kind as u64, t as u64], &[text]);
    sched::point(sched::Kind::Callback);
    let mut act = Act::Go;
    for (s, f) in &c.def.faults {
        if *s != slot {
            continue;
        }
        match *f {
            Fault::Yield => {
                hist::push(tag::FAULT, &[], &["yield"]);
                sched::polite_yield()
            }
            Fault::Stall => {
                hist::push(tag::FAULT, &[], &["stall"]);
                sched::stall()
            }
            Fault::Nested(o) => {
                hist::push(tag::FAULT, &[], &["nested-parse"]);
                run_op(o as usize)
            }
            Fault::DropNested(o) => {
                hist::push(tag::FAULT, &[], &["parse-in-destructor"]);
                c.drop_op = o
            }
            Fault::Err if matches!(kind, Kind::Conv | Kind::Man | Kind::TryFrom | Kind::Render) => {
                hist::push(tag::FAULT, &[], &["conversion-error"]);
                act = Act::Err
            }
            Fault::None if kind == Kind::FMap => {
                hist::push(tag::FAULT, &[], &["filter-map-none"]);
                act = Act::None
            }
            Fault::Drift(d) if kind == Kind::Man => {
                hist::push(tag::FAULT, &[], &["capture-miscount"]);
                act = Act::Drift(d)
            }
            Fault::Panic(k) => {
                hist::push(tag::FAULT, &[], &["panic"]);
                let id = (c.op as u64 + 1) * 10_000 + if kind == Kind::Default { 5000 } else { 0 } + idx as u64;
                if kind == Kind::Render {
                    c.threw = id;
                }
                throw(id, k);
            }
            _ => {}
        }
    }
    act
}

/// handed to the generated call sites
pub struct SiteCx {
    op: Option<&'static Op>,
    idx: u32,
}
impl SiteCx {
    pub fn input(&mut self) -> In {
        match self.op {
            Some(o) => {
                let t = texts_of(o);
                self.set_base(&t[0]);
                In::new(t)
            }
            None => In::new(warm_text()),
        }
    }
    /// the input as a plain string slice
    pub fn text(&mut self) -> &'static str {
        match self.op {
            Some(o) => {
                let t = texts_of(o);
                self.set_base(&t[0]);
                &t[0]
            }
            None => &warm_text()[0],
        }
    }
    pub fn set_base(&mut self, t: &str) {
        if let Some(c) = cur() {
            c.base = t.as_ptr() as usize;
            c.len = t.len();
        }
    }
    /// the call has returned: look at the result, hold it for a while, look again
    pub fn ret<T: Repr>(&mut self, r: Result<T, sscanf::Error>) {
        let Some(c) = cur() else { return };
        let kind = r.is_err() as u64;
        returned(c);
        let allocs = c.allocs as u64;
        let bytes = c.bytes;
        let op = c.op as u64;
        let look = || {
            quiet(|| {
                let mut o = new_out();
                match &r {
                    Ok(v) => v.repr(&mut o),
                    Err(e) => {
                        // the text of an error is written here, too
                        if let Err(p) = catch_unwind(AssertUnwindSafe(|| describe(e, &mut o))) {
                            drop(p);
                            hist::push(tag::RENDER, &[op, 5, 2, 0, 0, 0], &[""]);
                        }
                    }
                }
                o
            })
        };
        let first = look();
        let mut nums = [0u64; 250];
        nums[0] = c.op as u64;
        nums[1] = kind;
        nums[2] = allocs;
        nums[3] = bytes;
        let n = first.toks.len().min(246);
        nums[4..4 + n].copy_from_slice(&first.toks[..n]);
        hist::push(tag::RET, &nums[..4 + n], &[&first.s]);
        frugal(c, self.op.unwrap(), allocs);
        cb(Kind::Hold, 0, "");
        let second = look();
        let same = first.s == second.s;
        hist::push(tag::HELD, &[c.op as u64, same as u64], &[if same { "" } else { &second.s }]);
        if let Err(e) = &r {
            let n = c.def.faults.iter().filter(|f| matches!(f.1, Fault::Render(_))).count();
            if n > 0 {
                render(self.op.unwrap(), e);
                let third = look();
                if third.s != first.s {
                    hist::push(tag::RENDER, &[c.op as u64, 4, 0, 0, 0, 0], &[&third.s]);
                }
                quiet(move || drop(third));
            }
        }
        quiet(move || {
            drop(first);
            drop(second);
        });
        drop(r);
    }
    pub fn regex(&mut self, r: &'static sscanf::regex::Regex) {
        let Some(c) = cur() else { return };
        returned(c);
        let op = self.op.unwrap();
        let (allocs, bytes) = (c.allocs as u64, c.bytes);
        let mut text = String::new();
        quiet(|| text.reserve(4096));
        // the captures themselves are taken by simulated code
        if let Some(caps) = r.captures(&op.texts[0]) {
            quiet(|| {
                for g in caps.iter() {
                    match g {
                        Some(m) => text.push_str(&format!("{}+{};", m.start(), m.len())),
                        None => text.push_str("-;"),
                    }
                }
            });
        } else {
            quiet(|| text.push_str("no match"));
        }
        let addr = ordinal(r as *const _ as usize);
        hist::push(tag::REGEX, &[self.idx as u64, addr, allocs, bytes], &[&text]);
        frugal(c, op, allocs);
        cb(Kind::Hold, 0, "");
        quiet(move || drop(text));
    }
}

// ---- the text of an error ------------------------------------------------------------------
/// what an error is written to: takes the first n bytes and then fails once
struct Sink {
    room: usize,
    failed: bool,
    text: String,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        sched::point(sched::Kind::Callback);
        if self.failed {
            // there is room again, but what was refused is missing
            return Ok(());
        }
        let mut n = s.len().min(self.room);
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        quiet(|| self.text.push_str(&s[..n]));
        self.room -= n;
        self.failed = n < s.len();
        if self.failed {
            hist::push(tag::FAULT, &[], &["sink-full"]);
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}
/// `Fault::Render(n)`: Debug if n is odd, Display otherwise; n / 2 is the room, or NO_LIMIT
pub const NO_LIMIT: u32 = 0x7fff_ffff;
/// user code is asked for its part of the text
pub fn shown() -> std::fmt::Result {
    let Some(c) = cur() else { return Ok(()) };
    if c.showing && !sched::is_quiet() {
        // the library's part is over for now
        c.showing = false;
        let act = cb(Kind::Render, 0, "");
        c.showing = true;
        if let Act::Err = act {
            c.refused = true;
            return Err(std::fmt::Error);
        }
    }
    Ok(())
}
fn render(def: &Op, e: &sscanf::Error) {
    use std::fmt::Write;
    let Some(c) = cur() else { return };
    let op = c.op as u64;
    let mut seen = [false; 2];
    for (slot, f) in &def.faults {
        let (Slot::Hold, Fault::Render(n)) = (slot, *f) else { continue };
        let debug = n & 1 == 1;
        seen[debug as usize] = true;
        let room = if n / 2 == NO_LIMIT { usize::MAX } else { n as usize / 2 };
        let mut sink = Sink { room, failed: false, text: quiet(|| String::with_capacity(512)) };
        let Some(c) = cur() else { return };
        (c.threw, c.refused, c.showing) = (0, false, true);
        let r = catch_unwind(AssertUnwindSafe(|| if debug { write!(sink, "{e:?}") } else { write!(sink, "{e}") }));
        // changed meanwhile
        let Some(c) = cur() else { return };
        c.showing = false;
        let (status, id) = match &r {
            Ok(Ok(())) => (0, 0),
            Ok(Err(_)) => (1, 0),
            Err(p) => (2, payload(&**p).0),
        };
        // 0 whole, 1 ended by the sink or the caller's code, 2 ended by a panic
        let why = if c.threw != 0 { 2 } else { (sink.failed || c.refused) as u64 };
        hist::push(tag::RENDER, &[op, debug as u64, status, why, id, c.threw], &[&sink.text]);
        quiet(move || drop(sink));
        drop(r);
    }
    for debug in [false, true] {
        if !seen[debug as usize] {
            continue;
        }
        // what it should have been each time
        let mut sink = Sink { room: usize::MAX, failed: false, text: quiet(|| String::with_capacity(512)) };
        let r = catch_unwind(AssertUnwindSafe(|| if debug { write!(sink, "{e:?}") } else { write!(sink, "{e}") }));
        let status = match &r {
            Ok(Ok(())) => 0,
            Ok(Err(_)) => 1,
            Err(_) => 2,
        };
        let flaw = if status == 0 { quiet(|| crate::types::complete(e, debug).err().unwrap_or_default()) } else { String::new() };
        hist::push(tag::RENDER, &[op, 2 + debug as u64, status, 0, 0, 0], &[&sink.text, &flaw]);
        quiet(move || {
            drop(sink);
            drop(flaw)
        });
        drop(r);
    }
}

/// per site: more allocations than these by a parse, by a call for the regex, mean that a pattern is compiled
static mut BOUNDS: &[(u64, u64)] = &[];
pub fn set_bounds(b: &'static [(u64, u64)]) {
    unsafe { BOUNDS = b }
}
fn frugal(c: &Ctx, op: &Op, allocs: u64) {
    if !run().soak() || op.mode == Mode::FromStr {
        return;
    }
    let b = unsafe { BOUNDS.get(op.site).copied().unwrap_or((u64::MAX, u64::MAX)) };
    if allocs > if op.mode == Mode::GetRegex { b.1 } else { b.0 } {
        hist::odd(c.op);
    }
}

/// addresses never reach the history: they are replaced by the order of their first appearance
fn ordinal(a: usize) -> u64 {
    const N: usize = 512;
    static mut SEEN: [usize; N] = [0; N];
    for i in 0..N {
        unsafe {
            if SEEN[i] == a {
                return i as u64;
            }
            if SEEN[i] == 0 {
                SEEN[i] = a;
                return i as u64;
            }
        }
    }
    u64::MAX
}

fn warm_text() -> &'static [String] {
    static WARM: [String; 1] = [String::new()];
    &WARM
}
/// repetition number of the workload
static REP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// the texts of this repetition: repeated workloads use a new text each time
fn texts_of(o: &'static Op) -> &'static [String] {
    if run().memory() {
        let i = REP.load(std::sync::atomic::Ordering::Relaxed);
        let all: &'static [String] = unsafe {
            let at = o as *const Op as usize - run().ops.as_ptr() as usize;
            &(&*std::ptr::addr_of!(LONG))[at / std::mem::size_of::<Op>()]
        };
        &all[i..i + 1]
    } else {
        &o.texts
    }
}
/// the texts of all repetitions, by operation
static mut LONG: Vec<Vec<String>> = vec![];
/// One text is used throughout. Beyond more texts, variations of them are used: what a call might
/// keep per text must not stop growing.
fn lengthen(r: &'static Run) {
    let vary = |t: &str, key: u64| -> String {
        let mut h = key;
        t.chars()
            .map(|c| {
                h = crate::rng::mix(h);
                let k = (h >> 8) as u32;
                match c {
                    '2'..='9' if h & 1 == 0 => char::from_digit(2 + k % 8, 10).unwrap(),
                    'a'..='z' if h & 7 == 0 => (b'a' + (k % 26) as u8) as char,
                    c => c,
                }
            })
            .collect()
    };
    let all = r.ops.iter().enumerate().map(|(i, o)| {
        let n = o.texts.len();
        let one = |k: usize| if n == 1 { o.texts[0].clone() } else if k < n { o.texts[k].clone() } else { vary(&o.texts[k % n], (i * 1_000_000 + k) as u64) };
        (0..r.repeat).map(one).collect()
    });
    unsafe { LONG = all.collect() }
}

// ---- outcome of a call ------------------------------------------------------------------------
pub const PAYLOADS: u8 = 6;
const INJECTED: &str = "injected panic ";

static HOOKS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// installed as the process's panic hook
pub fn panic_hook() {
    HOOKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if let Some(c) = cur() {
        c.hooks += 1;
    }
}

/// panic with a payload of that kind
fn throw(id: u64, kind: u8) -> ! {
    use std::panic::{panic_any, resume_unwind};
    if let (Some(c), true) = (cur(), kind != 4) {
        c.thrown += 1;
    }
    match kind {
        1 => std::panic!("{INJECTED}{id}"), // a String
        2 => {
            // memory runs do not use this kind
            let s: &'static str = quiet(|| Box::leak(format!("{INJECTED}{id}").into_boxed_str()));
            panic_any(s)
        }
        3 => panic_any(vec![id, !id]),
        4 => resume_unwind(Box::new(ProbePanic(id))),
        5 => {
            let b: Box<dyn std::error::Error + Send + Sync> = Box::new(ProbePanic(id));
            panic_any(b)
        }
        _ => panic_any(ProbePanic(id)),
    }
}
/// id, kind (4 arrives as 0) and text
fn payload(e: &(dyn Any + Send)) -> (u64, u64, &str) {
    let id = |s: &str| s.strip_prefix(INJECTED).and_then(|n| n.parse().ok()).unwrap_or(0);
    if let Some(p) = e.downcast_ref::<ProbePanic>() {
        (p.0, 0, "probe")
    } else if let Some(s) = e.downcast_ref::<String>() {
        (id(s), 1, s.as_str())
    } else if let Some(s) = e.downcast_ref::<&'static str>() {
        (id(s), 2, s)
    } else if let Some(v) = e.downcast_ref::<Vec<u64>>() {
        (if v.len() == 2 && v[1] == !v[0] { v[0] } else { 0 }, 3, "vec")
    } else if let Some(b) = e.downcast_ref::<Box<dyn std::error::Error + Send + Sync>>() {
        (b.downcast_ref::<ProbePanic>().map_or(0, |p| p.0), 5, "boxed error")
    } else {
        (0, 9, "?")
    }
}

pub fn run_op(i: usize) {
    let def: &'static Op = &run().ops[i];
    let f = fns(def);
    let f = match def.mode {
        Mode::Scan => f.scan,
        Mode::GetRegex => f.get.unwrap_or(f.scan),
        Mode::FromStr => f.from_str.unwrap_or(f.scan),
    };
    let mut ctx = Ctx {
        op: i as u32,
        def,
        cb: 0,
        dflt: 0,
        seq: 0,
        dseq: 0,
        drop_op: NONE,
        base: 0,
        len: 0,
        allocs: 0,
        bytes: 0,
        ended: false,
        thrown: 0,
        hooks: 0,
        used: used(def).is_none_or(|u| *u),
        showing: false,
        shown: 0,
        threw: 0,
        refused: false,
    };
    let outer = CUR.with(|c| c.replace(&mut ctx));
    hist::push(tag::OP_START, &[i as u64, sched::current() as u64], &[]);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut cx = SiteCx { op: Some(def), idx: i as u32 };
        f(&mut cx)
    }));
    ctx.ended = true;
    match &r {
        Ok(()) => hist::push(tag::OP_END, &[i as u64, 0, ctx.allocs as u64, ctx.bytes], &[""]),
        Err(e) => {
            let (id, kind, text) = payload(&**e);
            let cut = text.char_indices().nth(160).map_or(text.len(), |(i, _)| i);
            hist::push(tag::OP_END, &[i as u64, 1, ctx.allocs as u64, ctx.bytes, id, kind], &[&text[..cut]])
        }
    }
    // a panic is announced where it starts, and nowhere else
    let own = r.as_ref().is_err_and(|e| payload(&**e).0 == 0);
    if def.oom.is_none() && (if own { ctx.hooks <= ctx.thrown } else { ctx.hooks != ctx.thrown }) {
        let how = if own { "ended in a panic" } else { "did not panic of itself" };
        quiet(|| {
            crate::sys::effects::report(&format!(
                "operation {i} {how}, its user code panicked {} times, and the panic hook ran {} times",
                ctx.thrown, ctx.hooks
            ))
        });
    }
    drop(r);
    CUR.with(|c| c.set(outer));
}

fn thread_body(t: usize) {
    let w = &run().threads[t];
    if let Some(e) = w.exit_op {
        EXIT.with(|x| x.0.set(e));
    }
    let loops = run().loops;
    for k in 0..loops.max(1) {
        if loops > 0 {
            hist::pass_begin(t, REP.load(std::sync::atomic::Ordering::Relaxed) * loops + k);
        }
        for &o in &w.ops {
            run_op(o as usize);
            sched::point(sched::Kind::Callback);
        }
        if loops > 0 {
            hist::pass_end(t);
        }
    }
}

/// Called in the child process of one run.
pub fn execute(plan: Option<&[sched::Decision]>) {
    let r = run();
    for &(s, rel) in &r.warm {
        let f = unsafe { &FNS[rel as usize][s] };
        for (k, f) in [Some(f.scan), f.get].into_iter().enumerate() {
            let Some(f) = f else { continue };
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut SiteCx { op: None, idx: NONE })));
            if let (Ok(()), Some(u)) = (r, unsafe { USED[rel as usize].get_mut(s) }) {
                u[k] = true;
            }
        }
    }
    if r.memory() {
        lengthen(r);
    }
    if r.soak() {
        hist::soak(r.ops.len());
    }
    sched::setup(&r.sched, plan);
    let n = r.threads.len();
    let live = || {
        (
            crate::alloc::LIVE_BLOCKS.load(std::sync::atomic::Ordering::Relaxed),
            crate::alloc::LIVE_BYTES.load(std::sync::atomic::Ordering::Relaxed),
        )
    };
    let before = live();
    for rep in 0..r.repeat.max(1) {
        hist::mute(r.memory());
        REP.store(rep, std::sync::atomic::Ordering::Relaxed);
        let mut i = 0;
        let size = if r.round == 0 { n } else { r.round };
        while i < n {
            let end = (i + size).min(n);
            sched::round(i..end, thread_body);
            i = end;
        }
        let m = live();
        hist::mute(false);
        if r.memory() {
            // relative to the start of the run: what the parent process keeps is its own business
            hist::push(tag::MEM, &[rep as u64, (m.0 - before.0) as u64, (m.1 - before.1) as u64, sched::totals()[0]], &[]);
        }
    }
    after();
    hist::push(tag::END, &sched::totals(), &[]);
}

/// what calls may have left behind in the process
fn after() {
    use std::io::Write;
    use std::sync::atomic::Ordering::Relaxed;
    let before = HOOKS.load(Relaxed);
    let _ = catch_unwind(|| std::panic::panic_any(ProbePanic(0)));
    if HOOKS.load(Relaxed) != before + 1 {
        crate::sys::effects::report("the panic hook was replaced");
    }
    // text that is still in the buffer
    crate::sys::effects::watch(true);
    let _ = std::io::stdout().flush();
    crate::sys::effects::watch(false);
}
