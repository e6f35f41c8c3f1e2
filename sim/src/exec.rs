//! One simulated run: a forked copy of this process, in which no call site has been used yet.
use dstcore::hist::{self, Ev};
use dstcore::sched::Decision;
use dstcore::work::{self, Run, SiteFns};
use dstcore::{sched, sys};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Exit {
    Done,
    /// ended by the scheduler: deadlock, step cap
    Fatal,
    Signal(i32),
    Hang,
    Code(i32),
}
pub struct Done {
    pub evs: Vec<Ev>,
    pub digest: u64,
    pub exit: Exit,
    pub overflow: bool,
}

pub struct Sites {
    pub dbg: &'static [SiteFns],
    pub rel: &'static [SiteFns],
}

const CPU_SECONDS: u64 = 6;
const WALL_SECONDS: u32 = 90;

pub fn simulate(sites: &Sites, run: &Run, plan: Option<&[Decision]>) -> Done {
    let d = tries(sites, run, plan, None);
    // the pass that was not like the first one: once more, recording it
    match d.evs.iter().find(|e| e.tag == hist::tag::SOAK) {
        Some(e) => tries(sites, run, plan, Some((e.n[0] as usize, e.n[1] as usize))),
        None => d,
    }
}

fn tries(sites: &Sites, run: &Run, plan: Option<&[Decision]>, focus: Option<(usize, usize)>) -> Done {
    for attempt in 0.. {
        let d = once(sites, run, plan, focus);
        // running out of wall-clock time says something about the machine, unless it happens again
        if d.exit == Exit::Signal(14) {
            if attempt < 1 {
                continue;
            }
            return Done { exit: Exit::Hang, ..d };
        }
        return d;
    }
    unreachable!()
}

fn once(sites: &Sites, run: &Run, plan: Option<&[Decision]>, focus: Option<(usize, usize)>) -> Done {
    hist::reset();
    hist::focus(focus);
    let pid = unsafe { sys::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            let fd = sys::open(c"/dev/null".as_ptr() as *const u8, 1);
            sys::dup2(fd, 1);
            sys::dup2(fd, 2);
            sys::prctl(1, 9); // die with the worker
            let more = run.repeat as u64 / 20 + run.ops.len() as u64 / 8 + run.loops as u64 * run.repeat as u64 * run.ops.len() as u64 / 300;
            sys::setrlimit(0, &[CPU_SECONDS + more, CPU_SECONDS + more + 1]);
            sys::setrlimit(4, &[0, 0]);
            sys::alarm(WALL_SECONDS + 3 * more as u32);
        }
        let run: &'static Run = unsafe { &*(run as *const Run) };
        work::install(run, sites.dbg, sites.rel);
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| work::execute(plan))).is_ok();
        unsafe { sys::_exit(if ok { 0 } else { 5 }) }
    }
    let mut status = 0i32;
    while unsafe { sys::waitpid(pid, &mut status, 0) } != pid {}
    let exit = match (status & 0x7f, (status >> 8) & 0xff) {
        (0, 0) => Exit::Done,
        (0, 3) => Exit::Fatal,
        (0, c) => Exit::Code(c),
        (24, _) => Exit::Hang, // SIGXCPU
        (s, _) => Exit::Signal(s),
    };
    Done { evs: hist::read(), digest: hist::digest(), exit, overflow: hist::overflowed() }
}

/// the decisions of a recorded run that differ from the default
pub fn plan_of(d: &Done) -> Vec<Decision> {
    d.evs
        .iter()
        .filter(|e| e.tag == hist::tag::SWITCH)
        .map(|e| (e.n[0] as u32, e.n[1] as u32, e.n[2] as u32))
        .collect()
}
#[allow(dead_code)]
pub fn spurious() -> u32 {
    sched::SPURIOUS
}
