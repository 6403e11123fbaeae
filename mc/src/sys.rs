#![allow(dead_code, non_camel_case_types)]
use std::ffi::c_void;
pub type c_int = i32;
extern "C" {
    pub fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    pub fn munmap(a: *mut c_void, l: usize) -> c_int;
    pub fn mprotect(a: *mut c_void, l: usize, p: c_int) -> c_int;
    pub fn madvise(a: *mut c_void, l: usize, adv: c_int) -> c_int;
    pub fn syscall(n: i64, ...) -> i64;
    pub fn sigaction(s: c_int, a: *const SigAction, o: *mut SigAction) -> c_int;
    pub fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
    pub fn _exit(c: c_int) -> !;
    pub fn prctl(o: c_int, ...) -> c_int;
}
pub const PROT_NONE: c_int = 0;
pub const PROT_RW: c_int = 3;
pub const MAP_SHARED: c_int = 1;
pub const MAP_PRIVATE: c_int = 2;
pub const MAP_ANON: c_int = 0x20;
pub const MAP_NORESERVE: c_int = 0x4000;
pub const SIGTRAP: c_int = 5;
pub const SIGSEGV: c_int = 11;
pub const SA_SIGINFO: c_int = 4;
pub const SA_NODEFER: c_int = 0x40000000;
pub const RLIMIT_AS: c_int = 9;
pub const RLIMIT_CORE: c_int = 4;

#[repr(C)]
pub struct SigAction {
    pub handler: usize,
    pub mask: [u64; 16],
    pub flags: c_int,
    pub restorer: usize,
}
/// x86_64 ucontext register indices (gregs start at byte 40 of ucontext_t)
pub const REG_RBX: usize = 11;
pub const REG_RDX: usize = 12;
pub const REG_RAX: usize = 13;
pub const REG_RCX: usize = 14;
pub const REG_RIP: usize = 16;
pub const REG_EFL: usize = 17;
pub unsafe fn greg(uc: *mut c_void, i: usize) -> *mut i64 {
    (uc as *mut u8).add(40 + 8 * i) as *mut i64
}
pub fn install(sig: c_int, h: extern "C" fn(c_int, *mut c_void, *mut c_void), flags: c_int) {
    let a = SigAction { handler: h as usize, mask: [0; 16], flags: SA_SIGINFO | flags, restorer: 0 };
    unsafe {
        sigaction(sig, &a, std::ptr::null_mut());
    }
}

/// Share a file mapping of `words` u64 between supervisor and worker.
pub fn map_file(path: &str, words: usize) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(words as u64 * 8).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), words * 8, PROT_RW, MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    p as *mut u64
}

// ---------------------------------------------------------------------------------------------
// CPUID faulting: pretend to be a CPU without some features

static mut HIDE_AVX2: bool = false;
static mut HIDE_SSE41: bool = false;

extern "C" fn cpuid_segv(_s: c_int, _i: *mut c_void, uc: *mut c_void) {
    unsafe {
        let rip = *greg(uc, REG_RIP) as *const u8;
        if *rip == 0x0f && *rip.add(1) == 0xa2 {
            let leaf = *greg(uc, REG_RAX) as u32;
            let sub = *greg(uc, REG_RCX) as u32;
            syscall(158, 0x1012i64, 1i64);
            let mut r = std::arch::x86_64::__cpuid_count(leaf, sub);
            syscall(158, 0x1012i64, 0i64);
            if leaf == 7 && sub == 0 && HIDE_AVX2 {
                r.ebx &= !(1 << 5);
                // avx512 family too
                r.ebx &= !((1 << 16) | (1 << 17) | (1 << 30) | (1 << 31));
            }
            if leaf == 1 {
                if HIDE_AVX2 {
                    r.ecx &= !(1 << 28);
                }
                if HIDE_SSE41 {
                    r.ecx &= !((1 << 19) | (1 << 20));
                }
            }
            *greg(uc, REG_RAX) = r.eax as i64;
            *greg(uc, REG_RBX) = r.ebx as i64;
            *greg(uc, REG_RCX) = r.ecx as i64;
            *greg(uc, REG_RDX) = r.edx as i64;
            *greg(uc, REG_RIP) += 2;
            return;
        }
        // a genuine fault: default action on return
        let a = SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
        sigaction(SIGSEGV, &a, std::ptr::null_mut());
    }
}

/// Returns false if the machine cannot do it.
pub fn hide_cpu_features(avx2: bool, sse41: bool) -> bool {
    unsafe {
        HIDE_AVX2 = avx2;
        HIDE_SSE41 = sse41;
        install(SIGSEGV, cpuid_segv, SA_NODEFER);
        if syscall(158, 0x1012i64, 0i64) != 0 {
            return false;
        }
    }
    let a = std::arch::is_x86_feature_detected!("avx2");
    let s = std::arch::is_x86_feature_detected!("sse4.1");
    !(avx2 && a) && !(sse41 && s)
}

/// processor time of this thread
pub fn cpu_ms() -> u64 {
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t[0] as u64 * 1000 + t[1] as u64 / 1_000_000
}
