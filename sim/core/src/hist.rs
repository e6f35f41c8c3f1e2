//! The recorded history of one simulated run, written into memory shared with the parent so that
//! it survives the run's process whatever happens to it.
pub const CAP: usize = 16 << 20;

static mut BASE: *mut u8 = std::ptr::null_mut();

pub fn init() {
    unsafe { BASE = crate::sys::shared(CAP) }
}
fn len_ptr() -> *mut usize {
    unsafe { BASE as *mut usize }
}
pub fn reset() {
    unsafe {
        *len_ptr() = 0;
        *len_ptr().add(1) = 0;
    }
}
pub fn overflowed() -> bool {
    unsafe { *len_ptr().add(1) != 0 }
}

pub mod tag {
    pub const OP_START: u8 = 1; // op, thread, step
    pub const CB: u8 = 2; // op, idx, kind, tag, text, action
    pub const RET: u8 = 3; // op, kind(0 ok,1 err), repr/chain, tokens
    pub const OP_END: u8 = 4; // op, kind(0 ok,1 err,2 panic,3 regex), text, allocs, bytes
    pub const TOK_NEW: u8 = 5; // op, id
    pub const TOK_DROP: u8 = 6; // op, id
    pub const SWITCH: u8 = 7; // thread, y, target, kind
    pub const VIOLATION: u8 = 8; // class, detail
    pub const ALLOC_FAIL: u8 = 9; // op, nth
    pub const END: u8 = 10; // steps, clock, hash
    pub const REGEX: u8 = 11; // op, address id, text
    pub const MEM: u8 = 12; // phase, blocks, bytes
    pub const FAULT: u8 = 13; // kind name
    pub const STALLED_RELEASE: u8 = 14;
    pub const HELD: u8 = 15; // op: value re-read unchanged
    pub const RENDER: u8 = 17; // op, form, status, cause, panic seen, panic raised, text
    pub const SOAK: u8 = 16; // thread, pass that was not like the first
}

static mut MUTED: bool = false;
/// long memory runs keep only what their oracle needs
pub fn mute(m: bool) {
    unsafe { MUTED = m }
}

// ---- runs of the same calls over and over ------------------------------------------------------
const T: usize = crate::sched::MAXT;
struct Soak {
    /// operations of the run; 0: not such a run
    ops: u64,
    /// what to record besides the first pass: a pass of a thread
    focus: Option<(usize, usize)>,
    pass: [usize; T],
    first: [u64; T],
    now: [u64; T],
}
static mut SOAK: Soak = Soak { ops: 0, focus: None, pass: [0; T], first: [0; T], now: [0; T] };
fn soak_state() -> &'static mut Soak {
    unsafe { &mut *std::ptr::addr_of_mut!(SOAK) }
}
pub fn soak(ops: usize) {
    soak_state().ops = ops as u64;
}
pub fn focus(f: Option<(usize, usize)>) {
    soak_state().focus = f;
}
pub fn pass_begin(t: usize, k: usize) {
    let s = soak_state();
    s.pass[t] = k;
    s.now[t] = 1;
}
/// what a thread does in a pass is the same in every pass
pub fn pass_end(t: usize) {
    let s = soak_state();
    if s.pass[t] == 0 {
        s.first[t] = s.now[t];
    } else if s.now[t] != s.first[t] {
        push(tag::SOAK, &[t as u64, s.pass[t] as u64], &[]);
        unsafe { crate::sys::_exit(3) }
    }
}
/// a call of the current pass did something no later call should
pub fn odd(_op: u32) {
    let t = crate::sched::current();
    let s = soak_state();
    if t < T && s.pass[t] > 0 {
        s.now[t] ^= 0x5555_5555;
    }
}
/// Is the event to be recorded, and as that of which copy of the operation?
fn soaked(tag: u8, nums: &[u64], strs: &[&str]) -> Option<u64> {
    let s = soak_state();
    let t = crate::sched::current();
    if s.ops == 0 || t >= T {
        return Some(0);
    }
    let first = s.pass[t] == 0;
    // what may differ from pass to pass is left out: amounts of memory, messages, waiting
    let n: &[u64] = match tag {
        tag::OP_START | tag::RET | tag::REGEX => &nums[..2],
        tag::OP_END => &[nums[0], nums[1], *nums.get(4).unwrap_or(&0), *nums.get(5).unwrap_or(&0)],
        tag::CB | tag::TOK_NEW | tag::TOK_DROP | tag::HELD | tag::RENDER | tag::ALLOC_FAIL => nums,
        _ => return (first || !matches!(tag, tag::FAULT | tag::STALLED_RELEASE)).then_some(0),
    };
    let mut h = s.now[t] ^ tag as u64;
    for x in n {
        h = crate::rng::mix(h ^ x);
    }
    if tag == tag::RET {
        for x in &nums[4..] {
            h = crate::rng::mix(h ^ x);
        }
    }
    if tag != tag::OP_END {
        for b in strs.iter().flat_map(|x| x.bytes()) {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    s.now[t] = crate::rng::mix(h);
    if first {
        Some(0)
    } else {
        (s.focus == Some((t, s.pass[t]))).then_some(s.ops)
    }
}

/// one event: tag, then numbers, then strings
pub fn push(tag: u8, nums: &[u64], strs: &[&str]) {
    let Some(copy) = soaked(tag, nums, strs) else { return };
    if copy > 0 && matches!(tag, tag::OP_START | tag::CB | tag::RET | tag::REGEX | tag::OP_END | tag::TOK_NEW | tag::TOK_DROP | tag::HELD | tag::RENDER | tag::ALLOC_FAIL) {
        let mut n = [0u64; 256];
        n[..nums.len()].copy_from_slice(nums);
        n[0] += copy;
        if tag == tag::OP_END && nums.get(4).is_some_and(|i| *i != 0) {
            n[4] += copy * 10_000;
        }
        return put(tag, &n[..nums.len()], strs);
    }
    put(tag, nums, strs)
}
fn put(tag: u8, nums: &[u64], strs: &[&str]) {
    unsafe {
        if MUTED && !matches!(tag, tag::VIOLATION | tag::MEM | tag::END | tag::FAULT) {
            return;
        }
        let lp = len_ptr();
        let mut need = 3 + nums.len() * 8;
        for s in strs {
            need += 4 + s.len();
        }
        let mut off = *lp;
        // what ends a run is always recorded
        let room = if matches!(tag, tag::VIOLATION | tag::SOAK) { CAP } else { CAP - 65536 };
        if 16 + off + need > room {
            *lp.add(1) = 1;
            return;
        }
        let mut put = |b: &[u8]| {
            std::ptr::copy_nonoverlapping(b.as_ptr(), BASE.add(16 + off), b.len());
            off += b.len();
        };
        put(&[tag, nums.len() as u8, strs.len() as u8]);
        for n in nums {
            put(&n.to_le_bytes());
        }
        for s in strs {
            put(&(s.len() as u32).to_le_bytes());
            put(s.as_bytes());
        }
        *lp = off;
    }
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub tag: u8,
    pub n: Vec<u64>,
    pub s: Vec<String>,
}

pub fn read() -> Vec<Ev> {
    let mut out = vec![];
    unsafe {
        let len = (*len_ptr()).min(CAP - 16);
        let data = std::slice::from_raw_parts(BASE.add(16), len);
        let mut i = 0;
        while i + 3 <= len {
            let (tag, nn, ns) = (data[i], data[i + 1] as usize, data[i + 2] as usize);
            i += 3;
            let mut n = Vec::with_capacity(nn);
            for _ in 0..nn {
                n.push(u64::from_le_bytes(data[i..i + 8].try_into().unwrap()));
                i += 8;
            }
            let mut s = Vec::with_capacity(ns);
            for _ in 0..ns {
                let l = u32::from_le_bytes(data[i..i + 4].try_into().unwrap()) as usize;
                i += 4;
                s.push(String::from_utf8_lossy(&data[i..i + l]).into_owned());
                i += l;
            }
            out.push(Ev { tag, n, s });
        }
    }
    out
}

/// FNV-1a over the whole raw history: the identity of an execution.
pub fn digest() -> u64 {
    unsafe {
        let len = (*len_ptr()).min(CAP - 16);
        let data = std::slice::from_raw_parts(BASE.add(16), len);
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in data {
            h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
        h
    }
}
