//! Controlled scheduler: real threads, exactly one of which runs at a time. Control changes hands
//! only at scheduling points: spawning a job, starting it, its end, joining, and every allocation
//! or deallocation made by the code under test. `explore` enumerates the schedules depth first
//! with a bound on preemptions.
use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

pub type Thunk = Box<dyn FnOnce() + Send + 'static>;

thread_local! {
    /// actor number of this thread, -1: not controlled
    static ME: Cell<i32> = const { Cell::new(-1) };
    /// >0: inside the harness or the allocator
    static BUSY: Cell<u32> = const { Cell::new(0) };
}
static ACTIVE: AtomicBool = AtomicBool::new(false);

pub struct Busy;
pub fn busy() -> Busy {
    let _ = BUSY.try_with(|b| b.set(b.get() + 1));
    Busy
}
impl Drop for Busy {
    fn drop(&mut self) {
        let _ = BUSY.try_with(|b| b.set(b.get() - 1));
    }
}
pub fn is_busy() -> bool {
    BUSY.try_with(|b| b.get() > 0).unwrap_or(true)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Absent,
    Ready,
    Joining(usize),
    Done,
}

struct PoolSt {
    n: u32,
    queue: VecDeque<Thunk>,
    active: u32,
    pending: u32,
    panicked: bool,
}
struct S {
    actors: Vec<St>,
    /// job to run for an actor that is a worker
    job: Vec<Option<(usize, Thunk)>>,
    nmain: usize,
    pools: Vec<PoolSt>,
    turn: i32,
    tick: u64,
    prefix: Vec<u8>,
    /// (options, chosen, cost of every option is 1 except the first if `free` is false)
    trace: Vec<(u8, u8, bool)>,
    used: u32,
    bound: u32,
    /// >0: round robin, this many points each
    quantum: u64,
    slice: u64,
    points: u64,
    lost: u64,
    deadlock: bool,
}
static M: Mutex<Option<S>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
static WORKERS: Mutex<usize> = Mutex::new(0);

fn lock() -> MutexGuard<'static, Option<S>> {
    M.lock().unwrap_or_else(|e| e.into_inner())
}

enum Choice {
    Run(usize),
    Start(usize),
}

/// choose who runs next; `me` is the caller if it can go on
fn pick(s: &mut S, me: Option<usize>) {
    s.points += 1;
    let mut opts: Vec<Choice> = vec![];
    if let Some(m) = me {
        opts.push(Choice::Run(m));
    }
    for (i, a) in s.actors.iter().enumerate() {
        if *a == St::Ready && Some(i) != me {
            opts.push(Choice::Run(i));
        }
    }
    for (p, st) in s.pools.iter().enumerate() {
        if !st.queue.is_empty() && st.active < st.n {
            opts.push(Choice::Start(p));
        }
    }
    if opts.is_empty() {
        if s.actors.iter().any(|a| matches!(a, St::Joining(_))) {
            s.deadlock = true;
        }
        s.turn = -1;
        CV.notify_all();
        return;
    }
    if s.quantum > 0 {
        s.slice += 1;
        if me.is_some() && s.slice < s.quantum {
            return;
        }
        s.slice = 0;
        // the next ready actor in turn; jobs are started as early as possible
        let cur = s.turn.max(0) as usize;
        let n = s.actors.len();
        let k = opts
            .iter()
            .enumerate()
            .min_by_key(|(_, o)| match o {
                Choice::Start(p) => *p,
                Choice::Run(i) => 1000 + (*i + n - cur - 1) % n,
            })
            .unwrap()
            .0;
        s.tick += 1;
        run_choice(s, opts.swap_remove(k));
        CV.notify_all();
        return;
    }
    let free = me.is_none();
    let d = s.trace.len();
    let avail = if !free && s.used >= s.bound { 1 } else { opts.len() };
    let mut k = 0usize;
    if avail > 1 {
        if d < s.prefix.len() {
            k = (s.prefix[d] as usize).min(avail - 1);
        }
        s.trace.push((avail as u8, k as u8, free));
    }
    if !free && k > 0 {
        s.used += 1;
    }
    s.tick += 1;
    run_choice(s, opts.swap_remove(k));
    CV.notify_all();
}

fn run_choice(s: &mut S, ch: Choice) {
    match ch {
        Choice::Run(i) => s.turn = i as i32,
        Choice::Start(p) => {
            let job = s.pools[p].queue.pop_front().unwrap();
            s.pools[p].active += 1;
            // lowest idle worker
            let mut i = s.nmain;
            while s.actors.get(i).map_or(false, |a| *a != St::Absent && *a != St::Done) {
                i += 1;
            }
            while s.actors.len() <= i {
                s.actors.push(St::Absent);
                s.job.push(None);
            }
            s.actors[i] = St::Ready;
            s.job[i] = Some((p, job));
            s.turn = i as i32;
            ensure_worker(i);
        }
    }
}

/// wait until it is `me`'s turn
fn await_turn(mut g: MutexGuard<'static, Option<S>>, me: usize) -> MutexGuard<'static, Option<S>> {
    loop {
        let (turn, tick) = match g.as_ref() {
            Some(s) => (s.turn, s.tick),
            None => return g,
        };
        if turn == me as i32 {
            return g;
        }
        let (g2, to) = CV.wait_timeout(g, Duration::from_millis(400)).unwrap_or_else(|e| e.into_inner());
        g = g2;
        if to.timed_out() {
            if let Some(s) = g.as_mut() {
                // the running actor waits for something the scheduler does not know about
                if s.tick == tick && s.turn == turn && turn >= 0 && s.actors.get(me) == Some(&St::Ready) {
                    s.lost += 1;
                    s.tick += 1;
                    s.turn = me as i32;
                }
            }
        }
    }
}

fn ensure_worker(i: usize) {
    // workers are numbered by actor; they live as long as the process
    let mut n = WORKERS.lock().unwrap_or_else(|e| e.into_inner());
    while *n <= i {
        let id = *n;
        *n += 1;
        std::thread::spawn(move || {
            ME.with(|m| m.set(id as i32));
            let _b = busy();
            loop {
                let mut g = lock();
                let job = loop {
                    if let Some(s) = g.as_mut() {
                        if s.turn == id as i32 && id >= s.nmain && s.job.get(id).map_or(false, |j| j.is_some()) {
                            break s.job[id].take().unwrap();
                        }
                    }
                    g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
                };
                drop(g);
                let (p, f) = job;
                BUSY.with(|b| b.set(0));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                BUSY.with(|b| b.set(1));
                let g = lock();
                let mut g = if g.as_ref().map_or(false, |s| s.turn != id as i32) { await_turn(g, id) } else { g };
                if let Some(s) = g.as_mut() {
                    s.actors[id] = St::Done;
                    let ps = &mut s.pools[p];
                    ps.active -= 1;
                    ps.pending -= 1;
                    ps.panicked |= r.is_err();
                    if ps.pending == 0 {
                        for a in s.actors.iter_mut() {
                            if *a == St::Joining(p) {
                                *a = St::Ready;
                            }
                        }
                    }
                    pick(s, None);
                }
            }
        });
    }
}

fn point() {
    let me = ME.try_with(|m| m.get()).unwrap_or(-1);
    if me < 0 {
        return;
    }
    let _b = busy();
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        if s.turn != me {
            // we were overtaken while blocked outside the scheduler's knowledge
            drop(await_turn(g, me as usize));
            return;
        }
        pick(s, Some(me as usize));
        if s.turn != me {
            drop(await_turn(g, me as usize));
        }
    }
}

#[inline]
pub fn alloc_point() {
    if ACTIVE.load(std::sync::atomic::Ordering::Relaxed) && !is_busy() {
        point();
    }
}

pub struct PoolHandle {
    id: usize,
}
impl PoolHandle {
    pub fn new(n: u32) -> Self {
        let _b = busy();
        let mut g = lock();
        let s = g.as_mut().expect("controlled pool outside exploration");
        s.pools.push(PoolSt { n, queue: VecDeque::new(), active: 0, pending: 0, panicked: false });
        PoolHandle { id: s.pools.len() - 1 }
    }
    pub fn execute(&self, b: Thunk) {
        {
            let _b = busy();
            let mut g = lock();
            let s = g.as_mut().unwrap();
            s.pools[self.id].queue.push_back(b);
            s.pools[self.id].pending += 1;
        }
        if !is_busy() {
            point();
        }
    }
    /// true if a job panicked
    pub fn join_all(&self) -> bool {
        let _b = busy();
        let me = ME.with(|m| m.get());
        let mut g = lock();
        let s = g.as_mut().unwrap();
        if s.pools[self.id].pending > 0 {
            s.actors[me as usize] = St::Joining(self.id);
            pick(s, None);
            loop {
                let s = g.as_mut().unwrap();
                if s.turn == me {
                    break;
                }
                if s.deadlock {
                    break;
                }
                g = CV.wait_timeout(g, Duration::from_millis(400)).unwrap_or_else(|e| e.into_inner()).0;
                let s = g.as_mut().unwrap();
                // a lost worker finished the last job
                if s.pools[self.id].pending == 0 && s.actors[me as usize] == St::Ready && s.turn == -1 {
                    s.turn = me;
                }
            }
        }
        let s = g.as_mut().unwrap();
        s.actors[me as usize] = St::Ready;
        std::mem::replace(&mut s.pools[self.id].panicked, false)
    }
    pub fn close(self) {}
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub schedules: u64,
    pub points: u64,
    pub choices: u64,
    pub max_depth: u64,
    pub lost: u64,
    pub complete: bool,
}

/// Run `mains` (each on its own controlled thread) under every schedule with at most `bound`
/// preemptions. `check` sees the results of each schedule (and its choices) and may stop the
/// exploration by returning Err. `beat` is called for every schedule.
pub fn explore<R: Send + 'static>(
    bound: u32,
    max_schedules: u64,
    mains: &[std::sync::Arc<dyn Fn() -> R + Send + Sync>],
    mut check: impl FnMut(Vec<R>, &[u8]) -> Result<(), String>,
    first: &[u8],
) -> (Stats, Result<(), String>) {
    let mut st = Stats::default();
    let mut prefix: Vec<u8> = first.to_vec();
    loop {
        let (res, trace, points, lost, dead) = run_one(bound, &prefix, mains);
        st.schedules += 1;
        st.points += points;
        st.lost += lost;
        st.choices += trace.len() as u64;
        st.max_depth = st.max_depth.max(trace.len() as u64);
        let chosen: Vec<u8> = trace.iter().map(|t| t.1).collect();
        if dead {
            return (st, Err(format!("deadlock under schedule {:?}", chosen)));
        }
        if let Err(e) = check(res, &chosen) {
            return (st, Err(format!("{} (schedule {:?})", e, chosen)));
        }
        // next schedule
        let mut t: Vec<(u8, u8, bool)> = trace;
        loop {
            match t.pop() {
                None => {
                    st.complete = true;
                    return (st, Ok(()));
                }
                Some((n, k, _)) if k + 1 < n => {
                    prefix = t.iter().map(|x| x.1).collect();
                    prefix.push(k + 1);
                    break;
                }
                _ => {}
            }
        }
        if st.schedules >= max_schedules {
            return (st, Ok(()));
        }
    }
}

type Trace = Vec<(u8, u8, bool)>;
pub fn run_one<R: Send + 'static>(
    bound: u32,
    prefix: &[u8],
    mains: &[std::sync::Arc<dyn Fn() -> R + Send + Sync>],
) -> (Vec<R>, Trace, u64, u64, bool) {
    run_with(bound, prefix, mains, 0)
}
/// `mains` in turn, `quantum` scheduling points each
pub fn run_rr<R: Send + 'static>(quantum: u64, mains: &[std::sync::Arc<dyn Fn() -> R + Send + Sync>]) -> (Vec<R>, u64, u64, bool) {
    let (r, _, points, lost, dead) = run_with(0, &[], mains, quantum);
    (r, points, lost, dead)
}
/// actors 0..MAINS are mains
const MAINS: usize = 40;
fn run_with<R: Send + 'static>(
    bound: u32,
    prefix: &[u8],
    mains: &[std::sync::Arc<dyn Fn() -> R + Send + Sync>],
    quantum: u64,
) -> (Vec<R>, Trace, u64, u64, bool) {
    let n = mains.len();
    assert!(n <= MAINS);
    {
        // reserve the worker numbers of the mains
        let mut w = WORKERS.lock().unwrap();
        if *w < MAINS {
            *w = MAINS;
        }
    }
    let nm = MAINS;
    {
        let mut g = lock();
        *g = Some(S {
            actors: (0..nm).map(|i| if i < n { St::Ready } else { St::Done }).collect(),
            job: (0..nm).map(|_| None).collect(),
            nmain: nm,
            pools: vec![],
            turn: -2,
            tick: 0,
            prefix: prefix.to_vec(),
            trace: vec![],
            used: 0,
            bound,
            quantum,
            slice: 0,
            points: 0,
            lost: 0,
            deadlock: false,
        });
    }
    ACTIVE.store(true, SeqCst);
    let hs: Vec<_> = mains
        .iter()
        .cloned()
        .enumerate()
        .map(|(i, f)| {
            std::thread::spawn(move || {
                let b = busy();
                ME.with(|m| m.set(i as i32));
                drop(await_turn(lock(), i));
                drop(b);
                let r = f();
                let _b = busy();
                let g = lock();
                let mut g = if g.as_ref().map_or(false, |s| s.turn != i as i32) { await_turn(g, i) } else { g };
                if let Some(s) = g.as_mut() {
                    s.actors[i] = St::Done;
                    pick(s, None);
                }
                ME.with(|m| m.set(-1));
                r
            })
        })
        .collect();
    {
        let _b = busy();
        let mut g = lock();
        let s = g.as_mut().unwrap();
        pick(s, None);
    }
    let res: Vec<R> = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| panic!("main actor panicked"))).collect();
    ACTIVE.store(false, SeqCst);
    let s = lock().take().unwrap();
    (res, s.trace, s.points, s.lost, s.deadlock)
}
