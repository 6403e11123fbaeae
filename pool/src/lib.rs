//! Stand-in for the `scoped_threadpool` crate (same public API), used by the harness through
//! cargo's `[patch]`. The pool is part of the *environment* of the code under test, so the model
//! checker owns it: jobs run inline, deferred (forwards or backwards), on free-running threads,
//! or under the controlled scheduler in `sched`.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};

pub mod sched;
pub mod step;

pub const INLINE: u8 = 0;
pub const DEFER: u8 = 1;
pub const DEFER_REV: u8 = 2;
pub const THREADS: u8 = 3;
pub const CONTROLLED: u8 = 4;

static MODE: AtomicU8 = AtomicU8::new(INLINE);
/// Statistics the harness reads.
pub static POOLS: AtomicU64 = AtomicU64::new(0);
pub static JOBS: AtomicU64 = AtomicU64::new(0);
pub static LAST_THREADS: AtomicU32 = AtomicU32::new(0);

pub fn set_mode(m: u8) {
    MODE.store(m, SeqCst)
}
pub fn mode() -> u8 {
    MODE.load(SeqCst)
}

/// jobs of the pool in use (DEFER modes), for `run_queued`
static CURRENT: std::sync::atomic::AtomicPtr<RefCell<VecDeque<Thunk>>> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

/// Take all jobs queued in the pool in use.
pub fn take_queued() -> Vec<Box<dyn FnOnce() + Send + 'static>> {
    let p = CURRENT.load(SeqCst);
    if p.is_null() {
        return vec![];
    }
    match unsafe { (*p).try_borrow_mut() } {
        Ok(mut q) => q.drain(..).collect(),
        Err(_) => vec![],
    }
}

type Thunk = Box<dyn FnOnce() + Send + 'static>;

struct Shared {
    m: Mutex<Inner>,
    cv: Condvar,
}
struct Inner {
    queue: VecDeque<Thunk>,
    pending: usize,
    closed: bool,
    panicked: bool,
}

pub struct Pool {
    n: u32,
    mode: u8,
    deferred: RefCell<VecDeque<Thunk>>,
    shared: Option<Arc<Shared>>,
    threads: Vec<std::thread::JoinHandle<()>>,
    ctl: Option<sched::PoolHandle>,
}

impl Pool {
    pub fn new(n: u32) -> Pool {
        assert!(n >= 1);
        let _b = sched::busy();
        POOLS.fetch_add(1, SeqCst);
        LAST_THREADS.store(n, SeqCst);
        let mode = mode();
        let mut p = Pool {
            n,
            mode,
            deferred: RefCell::new(VecDeque::new()),
            shared: None,
            threads: vec![],
            ctl: None,
        };
        if mode == THREADS {
            let sh = Arc::new(Shared {
                m: Mutex::new(Inner { queue: VecDeque::new(), pending: 0, closed: false, panicked: false }),
                cv: Condvar::new(),
            });
            for _ in 0..n {
                let sh = sh.clone();
                p.threads.push(std::thread::spawn(move || loop {
                    let job = {
                        let mut g = sh.m.lock().unwrap();
                        loop {
                            if let Some(j) = g.queue.pop_front() {
                                break j;
                            }
                            if g.closed {
                                return;
                            }
                            g = sh.cv.wait(g).unwrap();
                        }
                    };
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
                    let mut g = sh.m.lock().unwrap();
                    g.pending -= 1;
                    g.panicked |= r.is_err();
                    sh.cv.notify_all();
                }));
            }
            p.shared = Some(sh);
        } else if mode == CONTROLLED {
            p.ctl = Some(sched::PoolHandle::new(n));
        }
        p
    }
    pub fn scoped<'pool, 'scope, F, R>(&'pool mut self, f: F) -> R
    where
        F: FnOnce(&Scope<'pool, 'scope>) -> R,
    {
        CURRENT.store(&self.deferred as *const _ as *mut _, SeqCst);
        let scope = Scope { pool: self, _marker: PhantomData };
        f(&scope)
    }
    pub fn thread_count(&self) -> u32 {
        self.n
    }
}

impl Drop for Pool {
    fn drop(&mut self) {
        let _b = sched::busy();
        CURRENT.store(std::ptr::null_mut(), SeqCst);
        if let Some(sh) = &self.shared {
            sh.m.lock().unwrap().closed = true;
            sh.cv.notify_all();
            for t in self.threads.drain(..) {
                let _ = t.join();
            }
        }
        if let Some(c) = self.ctl.take() {
            c.close();
        }
    }
}

pub struct Scope<'pool, 'scope> {
    pool: &'pool mut Pool,
    _marker: PhantomData<std::cell::Cell<&'scope mut ()>>,
}

impl<'pool, 'scope> Scope<'pool, 'scope> {
    pub fn execute<F>(&self, f: F)
    where
        F: FnOnce() + Send + 'scope,
    {
        JOBS.fetch_add(1, SeqCst);
        if self.pool.mode == INLINE {
            f();
            return;
        }
        let b: Box<dyn FnOnce() + Send + 'scope> = Box::new(f);
        let b: Thunk = unsafe { std::mem::transmute(b) };
        match self.pool.mode {
            DEFER | DEFER_REV => {
                let _b = sched::busy();
                self.pool.deferred.borrow_mut().push_back(b);
            }
            THREADS => {
                let sh = self.pool.shared.as_ref().unwrap();
                let mut g = sh.m.lock().unwrap();
                g.queue.push_back(b);
                g.pending += 1;
                sh.cv.notify_all();
            }
            _ => self.pool.ctl.as_ref().unwrap().execute(b),
        }
    }
    pub fn join_all(&self) {
        match self.pool.mode {
            INLINE => {}
            DEFER | DEFER_REV => {
                let mut i = 0;
                loop {
                    let b = sched::busy();
                    let j = {
                        let mut q = self.pool.deferred.borrow_mut();
                        if self.pool.mode == DEFER {
                            q.pop_front()
                        } else {
                            q.pop_back()
                        }
                    };
                    drop(b);
                    match j {
                        Some(j) => {
                            if step::KIND.load(SeqCst) == 2 && step::JOB.load(SeqCst) == i {
                                step::on();
                                j();
                                step::off();
                            } else {
                                j()
                            }
                        }
                        None => break,
                    }
                    i += 1;
                }
            }
            THREADS => {
                let sh = self.pool.shared.as_ref().unwrap();
                let mut g = sh.m.lock().unwrap();
                while g.pending > 0 {
                    g = sh.cv.wait(g).unwrap();
                }
                let p = std::mem::replace(&mut g.panicked, false);
                drop(g);
                if p {
                    panic!("Thread pool worker panicked");
                }
            }
            _ => {
                if self.pool.ctl.as_ref().unwrap().join_all() {
                    panic!("Thread pool worker panicked");
                }
            }
        }
    }
    /// (unused by zune-jpeg, part of the original API)
    pub fn forever<F, R>(&self, f: F) -> R
    where
        F: FnOnce() -> R,
    {
        f()
    }
}

impl<'pool, 'scope> Drop for Scope<'pool, 'scope> {
    fn drop(&mut self) {
        self.join_all();
    }
}
