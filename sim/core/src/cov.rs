//! Hooks at every control-flow edge and store of the instrumented crates (see rustc.sh).
use crate::sched::{point, Kind};

static mut MAP: *mut u8 = std::ptr::null_mut();
static mut N: u32 = 0;
pub const MAX: usize = 1 << 18;

/// edges of all instrumented code
pub fn edges() -> usize {
    unsafe { N as usize }
}
/// one byte per edge, shared with child processes
pub fn share() {
    unsafe { MAP = crate::sys::shared(MAX) }
}
pub fn hit() -> Vec<bool> {
    unsafe { (0..edges().min(MAX - 1)).map(|i| !MAP.is_null() && *MAP.add(i + 1) != 0).collect() }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    while start < stop {
        if *start == 0 {
            N += 1;
            *start = N;
        }
        start = start.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let map = MAP;
    if !map.is_null() && (*guard as usize) < MAX {
        *map.add(*guard as usize) = 1;
    }
    point(Kind::Edge)
}
macro_rules! stores {
    ($($n:ident)*) => { $(#[no_mangle]
    pub extern "C" fn $n(_: *const u8) {
        point(Kind::Edge)
    })* };
}
stores!(__sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
