//! Instruction level preemption: the code under test is single-stepped (trap flag); at every
//! chosen instruction the process is forked, and in the child "the other activity" runs to
//! completion on another thread before the stepped one continues at full speed.
use crate::sched;
use std::ffi::c_void;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

extern "C" {
    fn sigaction(s: i32, a: *const SigAction, o: *mut SigAction) -> i32;
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn stat(p: *const u8, b: *mut u8) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

pub static COUNT: AtomicU64 = AtomicU64::new(0);
pub static MODULUS: AtomicU64 = AtomicU64::new(0);
pub static RESIDUE: AtomicU64 = AtomicU64::new(0);
pub static FORKS: AtomicU64 = AtomicU64::new(0);
pub static SKIPPED: AtomicU64 = AtomicU64::new(0);
pub static IN_CHILD: AtomicBool = AtomicBool::new(false);
/// instruction number of the first failing child, -1: none
pub static FAILED_AT: AtomicI64 = AtomicI64::new(-1);
pub static FAILED_ST: AtomicI64 = AtomicI64::new(0);
static mut OTHER: Option<fn()> = None;
/// called in the parent after every child
static mut BEAT: Option<fn()> = None;
/// 0: nothing is stepped, 1: the whole run, 2: job number JOB of the deferred ones
pub static KIND: AtomicU64 = AtomicU64::new(0);
pub static JOB: AtomicU64 = AtomicU64::new(0);

fn threads() -> u64 {
    // /proc/self/task has 2 + (number of threads) links
    let mut b = [0u8; 256];
    unsafe {
        if stat(b"/proc/self/task\0".as_ptr(), b.as_mut_ptr()) != 0 {
            return 99;
        }
    }
    u64::from_ne_bytes(b[16..24].try_into().unwrap()) - 2
}

extern "C" fn trap(_s: i32, _i: *mut c_void, uc: *mut c_void) {
    if sched::is_busy() {
        return;
    }
    let _b = sched::busy();
    let n = COUNT.fetch_add(1, SeqCst);
    if n % MODULUS.load(SeqCst) != RESIDUE.load(SeqCst) || FAILED_AT.load(SeqCst) >= 0 {
        return;
    }
    if threads() != 1 {
        SKIPPED.fetch_add(1, SeqCst);
        return;
    }
    unsafe {
        let pid = fork();
        if pid < 0 {
            SKIPPED.fetch_add(1, SeqCst);
        } else if pid == 0 {
            alarm(30);
            IN_CHILD.store(true, SeqCst);
            // no more stepping here
            let efl = (uc as *mut u8).add(40 + 8 * 17) as *mut i64;
            *efl &= !0x100;
            if let Some(f) = OTHER {
                f();
            }
        } else {
            FORKS.fetch_add(1, SeqCst);
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            if st != 0 {
                FAILED_AT.store(n as i64, SeqCst);
                FAILED_ST.store(st as i64, SeqCst);
            }
            if let Some(f) = BEAT {
                f();
            }
        }
    }
}

pub fn setup(other: fn(), beat: fn(), modulus: u64, residue: u64) {
    unsafe {
        OTHER = Some(other);
        BEAT = Some(beat);
        let a = SigAction { handler: trap as usize, mask: [0; 16], flags: 4, restorer: 0 };
        sigaction(5, &a, std::ptr::null_mut());
    }
    COUNT.store(0, SeqCst);
    MODULUS.store(modulus, SeqCst);
    RESIDUE.store(residue, SeqCst);
    FORKS.store(0, SeqCst);
    SKIPPED.store(0, SeqCst);
    FAILED_AT.store(-1, SeqCst);
}

#[inline(never)]
pub fn on() {
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
}
#[inline(never)]
pub fn off() {
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
}
