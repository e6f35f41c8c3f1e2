//! libc seams. The definitions below replace libc's for everything linked statically into the
//! simulator (std, regex, sscanf, the call sites): a simulated thread that blocks, sleeps, reads
//! the clock or asks for random bytes talks to the scheduler instead of the kernel. Threads that
//! do not take part in a simulation get the real thing.
use std::arch::asm;

pub const SYS_FUTEX: i64 = 202;
const SYS_GETRANDOM: i64 = 318;
const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_NANOSLEEP: i64 = 35;
const SYS_CLOCK_NANOSLEEP: i64 = 230;
const SYS_SCHED_YIELD: i64 = 24;

#[inline]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
         in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
pub fn errno() -> i32 {
    unsafe { *__errno_location() }
}

fn ret(r: i64) -> i64 {
    if r < 0 && r >= -4095 {
        unsafe { *__errno_location() = (-r) as i32 };
        -1
    } else {
        r
    }
}

/// `libc::syscall` is variadic; on x86_64 the seven integer arguments arrive in the same places.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX && crate::sched::on_sim_thread() {
        let r = crate::sched::loud(|| crate::sched::futex(a as usize, b as i32, c as u32, d as *const [i64; 2], f as u32));
        return ret(r);
    }
    if crate::sched::in_sim() {
        if n == SYS_GETRANDOM {
            return getrandom(a as *mut u8, b as usize, c as u32) as i64;
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if crate::sched::in_sim() {
        for i in 0..len {
            *buf.add(i) = crate::sched::random_byte();
        }
        return len as isize;
    }
    ret(raw(SYS_GETRANDOM, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    if crate::sched::in_sim() {
        let now = crate::sched::read_clock();
        *ts = [(now / 1_000_000_000) as i64, (now % 1_000_000_000) as i64];
        return 0;
    }
    ret(raw(SYS_CLOCK_GETTIME, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if crate::sched::on_sim_thread() {
        crate::sched::loud(|| crate::sched::sleep_ns(((*req)[0] as u64) * 1_000_000_000 + (*req)[1] as u64));
        return 0;
    }
    ret(raw(SYS_NANOSLEEP, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if crate::sched::on_sim_thread() {
        let t = ((*req)[0] as u64) * 1_000_000_000 + (*req)[1] as u64;
        if flags & 1 != 0 {
            crate::sched::loud(|| crate::sched::sleep_until(t));
        } else {
            crate::sched::loud(|| crate::sched::sleep_ns(t));
        }
        return 0;
    }
    let r = raw(SYS_CLOCK_NANOSLEEP, clk as i64, flags as i64, req as i64, rem as i64, 0, 0);
    (-r) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if crate::sched::on_sim_thread() {
        crate::sched::loud(|| {
            crate::work::waits("gave way to other threads");
            crate::sched::polite_yield()
        });
        return 0;
    }
    ret(raw(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0)) as i32
}

// ---- what a parse has no business doing -----------------------------------------------------
/// libc's ways to affect or ask anything outside of the process, or to change its settings. None of
/// them is carried out for a simulated call.
pub mod effects {
    extern "C" {
        fn dlsym(handle: isize, name: *const u8) -> *const u8;
    }
    /// how many more are recorded
    static mut LEFT: u32 = 20;
    static mut WATCH: bool = false;
    /// also what the calling thread does outside of a simulation
    pub fn watch(on: bool) {
        unsafe { WATCH = on }
    }
    pub fn report(detail: &str) {
        violation("effect", detail)
    }
    pub fn violation(class: &str, detail: &str) {
        unsafe {
            if LEFT > 0 {
                LEFT -= 1;
                crate::hist::push(crate::hist::tag::VIOLATION, &[], &[class, detail]);
            }
        }
    }
    unsafe fn watched() -> bool {
        crate::sched::in_sim() || (WATCH && !crate::sched::on_sim_thread())
    }
    macro_rules! watch {
        ($($n:ident)*) => { $(#[no_mangle]
        pub unsafe extern "C" fn $n(a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
            static mut REAL: *const u8 = std::ptr::null();
            if watched() {
                report(concat!("a call of ", stringify!($n)));
                crate::sys::_exit(3);
            }
            if REAL.is_null() {
                REAL = dlsym(-1, concat!(stringify!($n), "\0").as_ptr());
            }
            let real: extern "C" fn(i64, i64, i64, i64, i64, i64) -> i64 = std::mem::transmute(REAL);
            real(a, b, c, d, e, f)
        })* };
    }
    watch!(open open64 openat openat64 creat fopen fopen64 read readv pread64 pwrite64 pwritev ftruncate64
        socket socketpair connect bind sendto sendmsg recvfrom pipe pipe2 dup2 unlink unlinkat rename mkdir rmdir
        fork vfork execve execvp posix_spawn posix_spawnp system kill exit quick_exit atexit
        pthread_create pthread_kill pthread_setname_np sigaction signal sigprocmask pthread_sigmask
        chdir fchdir umask setenv unsetenv putenv setlocale prctl setrlimit setpriority nice sched_setaffinity
        alarm setitimer dlopen);

    /// text for the standard streams goes nowhere; the runtime also says something before it aborts
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
        if watched() {
            said(fd, std::slice::from_raw_parts(p, n.min(200)));
            return n as isize;
        }
        super::ret(super::raw(1, fd as i64, p as i64, n as i64, 0, 0, 0)) as isize
    }
    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: i32, v: *const [usize; 2], n: i32) -> isize {
        if watched() {
            let all = std::slice::from_raw_parts(v, n as usize);
            let first = all.iter().find(|x| x[1] > 0).copied().unwrap_or([1, 0]);
            said(fd, std::slice::from_raw_parts(first[0] as *const u8, first[1].min(200)));
            return all.iter().map(|x| x[1]).sum::<usize>() as isize;
        }
        super::ret(super::raw(20, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
    }
    fn said(fd: i32, text: &[u8]) {
        crate::sched::quiet(|| report(&format!("{:?} was written to descriptor {fd}", String::from_utf8_lossy(text))))
    }
    /// an environment that is different in every run
    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
        static mut REAL: *const u8 = std::ptr::null();
        if crate::sched::in_sim() {
            let mut h = crate::sched::env_seed();
            let mut p = name;
            while *p != 0 {
                h = crate::rng::mix(h ^ *p as u64);
                p = p.add(1);
            }
            crate::hist::push(crate::hist::tag::FAULT, &[], &["environment-variable"]);
            return match h % 8 {
                0..=2 => std::ptr::null(),
                3..=4 => c"1".as_ptr() as *const u8,
                5 => c"0".as_ptr() as *const u8,
                6 => c"".as_ptr() as *const u8,
                _ => c"debug".as_ptr() as *const u8,
            };
        }
        if REAL.is_null() {
            REAL = dlsym(-1, c"getenv".as_ptr() as *const u8);
        }
        let real: extern "C" fn(*const u8) -> *const u8 = std::mem::transmute(REAL);
        real(name)
    }
}

// ---- small helpers for the driver -------------------------------------------------------------
extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn setrlimit(res: i32, rl: *const [u64; 2]) -> i32;
    pub fn alarm(s: u32) -> u32;
    pub fn open(path: *const u8, flags: i32, ...) -> i32;
    pub fn dup2(a: i32, b: i32) -> i32;
    pub fn prctl(op: i32, ...) -> i32;
    pub fn personality(p: u64) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
}

pub fn shared(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p
}
pub unsafe fn futex_wait_raw(p: *const u32, val: u32) {
    raw(SYS_FUTEX, p as i64, 128, val as i64, 0, 0, 0);
}
pub unsafe fn futex_wake_raw(p: *const u32) {
    raw(SYS_FUTEX, p as i64, 129, 1, 0, 0, 0);
}

/// Keep this process and its children on one of the processors it may use: only one of its threads
/// ever runs, and handing over is much faster on the same processor.
pub fn pin(k: usize) {
    let mut mask = [0u64; 16];
    unsafe {
        if raw(204, 0, 128, mask.as_mut_ptr() as i64, 0, 0, 0) <= 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| mask[c / 64] >> (c % 64) & 1 == 1).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[k % cpus.len()];
        let mut one = [0u64; 16];
        one[c / 64] = 1 << (c % 64);
        raw(203, 0, 128, one.as_ptr() as i64, 0, 0, 0);
    }
}
