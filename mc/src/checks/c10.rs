//! Thread count and scheduling never change the result.
use super::common::*;
use super::*;
use crate::jpeg::*;
use scoped_threadpool as pool;
use scoped_threadpool::{sched, step};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

pub fn check() -> Check {
    Check {
        id: "C10",
        level: "model_checking",
        rule: "states: scheduling decisions; (a) every schedule of the decoding thread and its jobs at spawn/start/allocation/end/join points with at most 0, 1, ... preemptions, one and two decoders (see scenarios_complete_with_preemption_bound_N); (b) one preemption at every Nth instruction (N in the case labels; 1 for jobs in the thorough tier) of a job, of the decoding thread and of a second decoder, the others running to completion there (single stepping and fork); (c) thread counts x job orders; (d) 3 to 33 decoders in turn, every number of scheduling points per turn up to 12 (thorough 40); transitions: scheduling points executed; every execution must return the bytes (or failure) of the sequential one and leave no thread behind",
        assumptions: &["the pool stand-in in /verif/pool has the contract of scoped_threadpool (jobs start in order, at most n at a time, scope end joins)", "sequentially consistent memory"],
        passes: native_pass,
        run,
    }
}

fn decode(o: &Opt, data: &[u8]) -> Res {
    let r = guard(|| {
        let mut d = zj::Decoder::new_with_options(o.zj());
        d.decode_buffer(data).map_err(|e| format!("{:?}", e))
    });
    match r {
        Ok(Ok(v)) => Res::Ok(v),
        Ok(Err(e)) => Res::Err(e),
        Err(p) => Res::Panic(p),
    }
}

fn scenarios(thorough: bool) -> Vec<(String, Vec<u8>, Opt)> {
    let mut v = vec![];
    let mut add = |n: &str, d: Vec<u8>, o: Opt| v.push((n.to_string(), d, o));
    let g = filled(Image::gray(9, 20), 1);
    add("gray 9x20 baseline", baseline(&g), DEF.cs(Cs::GRAYSCALE));
    add("gray 9x20 progressive", progressive(&g, &simple_script(&g)), DEF);
    let s = filled(Image::gray(8, 16), 3);
    add("gray 8x16 baseline", baseline(&s), DEF);
    let s = filled(Image::color(8, 16, (1, 1)), 3);
    add("1x1 8x16 baseline", baseline(&s), DEF);
    for (kind, w, h) in [(1, 17, 18), (2, 19, 33), (3, 9, 33), (4, 18, 65)] {
        let im = filled(make(kind, w, h), 5);
        let cs = CSS[kind % 5];
        add(&format!("{} {}x{} baseline", kind_name(kind), w, h), baseline(&im), DEF.cs(cs));
        add(&format!("{} {}x{} progressive", kind_name(kind), w, h), progressive(&im, &simple_script(&im)), DEF.cs(CSS[(kind + 2) % 5]));
        if thorough {
            for cs in CSS {
                add(&format!("{} {}x{} restarts {:?}", kind_name(kind), w, h, cs), baseline_ri(&im, 2), DEF.cs(cs).us(false));
            }
        }
    }
    // fails in the third MCU row
    let im = filled(Image::color(16, 40, (1, 1)), 8);
    let mut e = encode(&im, false, &[baseline_scan(&im, 2)], &t_opt).parts;
    let n = e.len();
    let mut hits = 0;
    let dd = &mut e[n - 2].data;
    for i in 0..dd.len() - 1 {
        if dd[i] == 0xff && (0xd0..0xd8).contains(&dd[i + 1]) {
            hits += 1;
            if hits == 3 {
                dd[i + 1] = 0xc4; // a table marker where a restart belongs
            }
        }
    }
    add("colour 16x40 with an error in the third row", file(&e), DEF);
    v
}

static OTHER: Mutex<Option<Arc<dyn Fn() + Send + Sync>>> = Mutex::new(None);
static mut SHM: *mut u64 = std::ptr::null_mut();
fn beat() {
    unsafe {
        let p = SHM.add(1);
        p.write_volatile(p.read_volatile() + 1);
    }
}
/// in the child: run the other activity on a thread of its own, give up waiting if it blocks
fn run_other() {
    let f = OTHER.lock().unwrap().clone();
    if let Some(f) = f {
        f();
    }
}
/// a second thread runs `f`; wait for it, but not for ever: it may need what we hold
fn aside(f: impl FnOnce() + Send + 'static) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        f();
        let _ = tx.send(());
    });
    if rx.recv_timeout(std::time::Duration::from_millis(300)).is_err() {
        PENDING.lock().unwrap().push(rx);
    }
}
static PENDING: Mutex<Vec<std::sync::mpsc::Receiver<()>>> = Mutex::new(vec![]);
static OTHER_BAD: Mutex<Option<String>> = Mutex::new(None);

/// Single-step `f` and preempt it at the instructions numbered `res` modulo `modulus`.
fn stepped(
    c: &mut Ctx,
    kind: u64,
    job: u64,
    modulus: u64,
    res: u64,
    f: &dyn Fn() -> Res,
    want: &Res,
) -> Result<(), String> {
    unsafe { SHM = c.shm };
    step::setup(run_other, beat, modulus, res);
    step::KIND.store(kind, SeqCst);
    step::JOB.store(job, SeqCst);
    if kind == 1 {
        step::on();
    }
    let r = f();
    if kind == 1 {
        step::off();
    }
    step::KIND.store(0, SeqCst);
    if step::IN_CHILD.load(SeqCst) {
        for p in PENDING.lock().unwrap().drain(..) {
            let _ = p.recv();
        }
        let mut code = 0;
        if !r.same(want) {
            code = 11;
        }
        if OTHER_BAD.lock().unwrap().is_some() {
            code = 12;
        }
        unsafe { crate::sys::_exit(code) };
    }
    c.evals += step::FORKS.load(SeqCst) + 1;
    c.count("validated", step::FORKS.load(SeqCst) + 1);
    c.count("states", step::FORKS.load(SeqCst) + 1);
    c.count("transitions", step::COUNT.load(SeqCst));
    c.count("instructions_stepped", step::COUNT.load(SeqCst));
    c.count("preempted_executions", step::FORKS.load(SeqCst));
    c.count("skipped_points", step::SKIPPED.load(SeqCst));
    c.max("max_instructions", step::COUNT.load(SeqCst));
    let at = step::FAILED_AT.load(SeqCst);
    if at >= 0 {
        let st = step::FAILED_ST.load(SeqCst);
        let what = match st {
            s if s & 0x7f == 14 => "does not finish".to_string(),
            s if s & 0x7f != 0 => format!("dies with signal {}", s & 0x7f),
            s if s >> 8 == 12 => "lets the activity that ran in between go wrong".to_string(),
            _ => "returns something else".to_string(),
        };
        return Err(format!("preempted at its instruction {}, the execution {}", at, what));
    }
    if !r.same(want) {
        return Err(format!("single-stepped execution returns {}, expected {}", r.brief(), want.brief()));
    }
    Ok(())
}

fn nthreads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(1)
}

fn run(c: &mut Ctx) {
    universe(c);
    // (b) first: it needs a process without other threads
    let sc = scenarios(!c.quick());
    // jobs
    let njob = c.pick(7u64, 1);
    for (i, (name, data, o)) in sc.iter().enumerate() {
        for (rev, job) in [(false, 0u64), (false, 1), (true, 0)] {
            let slices = 8u64;
            for s in 0..slices {
                c.case(
                    || format!("{}: job {}{} preempted at every {}th instruction, slice {}", name, job, if rev { " from the end" } else { "" }, njob, s),
                    |c| {
                        c.note_input(data);
                        pool::set_mode(pool::INLINE);
                        let want = decode(o, data);
                        *OTHER.lock().unwrap() = Some(Arc::new(|| {
                            let q = pool::take_queued();
                            aside(move || {
                                for j in q {
                                    j()
                                }
                            });
                        }));
                        pool::set_mode(if rev { pool::DEFER_REV } else { pool::DEFER });
                        // different slices take different residues, all of them in thorough mode
                        let m = njob * slices;
                        let res = (s * njob + i as u64) % m;
                        let r = stepped(c, 2, job, m, res, &|| decode(o, data), &want);
                        pool::set_mode(pool::INLINE);
                        r
                    },
                );
            }
        }
    }
    // the decoding thread, jobs run in between
    let nmain = c.pick(80u64, 4);
    for (i, (name, data, o)) in sc.iter().enumerate() {
        for s in 0..8u64 {
            c.case(
                || format!("{}: decoding thread preempted at every {}th instruction by its jobs, slice {}", name, nmain, s),
                |c| {
                    c.note_input(data);
                    pool::set_mode(pool::INLINE);
                    let want = decode(o, data);
                    *OTHER.lock().unwrap() = Some(Arc::new(|| {
                        let q = pool::take_queued();
                        if q.is_empty() {
                            // nothing can run here: same as not preempted
                            unsafe { crate::sys::_exit(0) };
                        }
                        aside(move || {
                            for j in q {
                                j()
                            }
                        });
                    }));
                    pool::set_mode(pool::DEFER);
                    let m = nmain * 8;
                    let r = stepped(c, 1, 0, m, (s * nmain + i as u64) % m, &|| decode(o, data), &want);
                    pool::set_mode(pool::INLINE);
                    r
                },
            );
        }
    }
    // two decoders
    let ndec = c.pick(120u64, 6);
    for (i, (name, data, o)) in sc.iter().enumerate() {
        let (n2, d2, o2) = sc[(i * 3 + 4) % sc.len()].clone();
        for s in 0..8u64 {
            c.case(
                || format!("{}: preempted at every {}th instruction by a decoder of {}, slice {}", name, ndec, n2, s),
                |c| {
                    c.note_input(data);
                    pool::set_mode(pool::INLINE);
                    let want = decode(o, data);
                    let want2 = decode(&o2, &d2);
                    let (d2, w2) = (d2.clone(), want2.clone());
                    *OTHER.lock().unwrap() = Some(Arc::new(move || {
                        let (d2, w2) = (d2.clone(), w2.clone());
                        aside(move || {
                            let r = decode(&o2, &d2);
                            if !r.same(&w2) {
                                *OTHER_BAD.lock().unwrap() = Some(r.brief());
                            }
                        });
                    }));
                    let m = ndec * 8;
                    stepped(c, 1, 0, m, (s * ndec + i as u64) % m, &|| decode(o, data), &want)
                },
            );
        }
    }
    // (c) thread counts and job orders
    let counts: Vec<u32> = (1..=40).chain([63, 64, 65, 100, 127, 128, 255, 256, 1000, 65535, 65536, u32::MAX]).collect();
    for kind in 0..5usize {
        for &(w, h) in &[(16usize, 16usize), (40, 200), (33, 97), (130, 50), (24, 1000)] {
            c.case(
                || format!("{} {}x{}: thread counts {:?}", kind_name(kind), w, h, counts),
                |c| {
                    let img = filled(make(kind, w, h), 12);
                    let corrupt = {
                        let mut d = baseline(&img);
                        let n = d.len();
                        d[n * 3 / 4] ^= 0x55;
                        d
                    };
                    let rst: Vec<Scan> = full_script(&img).into_iter().map(|s| s.ri(3)).collect();
                    let mut cut = baseline_ri(&img, 1);
                    cut.truncate(cut.len() * 2 / 3);
                    let all = [baseline(&img), progressive(&img, &full_script(&img)), corrupt, baseline_ri(&img, 1), baseline_ri(&img, 5), progressive(&img, &rst), cut];
                    for (di, data) in all.iter().enumerate() {
                        let o = DEF.cs(CSS[(w + kind + di) % 5]).us(di % 2 == 0).strict(di % 3 == 0);
                        let want = c.decode(&o.threads(4), data);
                        for &n in &counts {
                            for mode in [pool::INLINE, pool::DEFER, pool::DEFER_REV] {
                                pool::set_mode(mode);
                                let r = c.decode(&o.threads(n), data);
                                pool::set_mode(pool::INLINE);
                                c.count("states", 1);
                                c.count("transitions", 1);
                                if !r.same(&want) {
                                    return Err(format!("{} threads, job order {}: {} instead of {}", n, mode, r.brief(), want.brief()));
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // (a) controlled schedules
    for (name, data, o) in &sc {
        for threads in [1u32, 2, 3] {
            c.case(
                || format!("{}: {} workers, every schedule with 0, 1, ... preemptions", name, threads),
                |c| {
                    pool::set_mode(pool::INLINE);
                    let o = o.threads(threads);
                    let want = decode(&o, data);
                    pool::set_mode(pool::CONTROLLED);
                    let d = data.clone();
                    let main: Arc<dyn Fn() -> Res + Send + Sync> = Arc::new(move || decode(&o, &d));
                    c.note_input(data);
                    let r = deepen(c, &[main], &[want], c.pick(2_500, 2_000_000));
                    pool::set_mode(pool::INLINE);
                    r
                },
            );
        }
    }
    for (i, (name, data, o)) in sc.iter().enumerate() {
        for k in 0..c.pick(2usize, sc.len()) {
            let (n2, d2, o2) = sc[(i + k * 2 + 1) % sc.len()].clone();
            c.case(
                || format!("{} and {} at the same time, every schedule with 0, 1, ... preemptions", name, n2),
                |c| {
                    pool::set_mode(pool::INLINE);
                    let (o1, o2) = (o.threads(2), o2.threads(1));
                    let want = [decode(&o1, data), decode(&o2, &d2)];
                    pool::set_mode(pool::CONTROLLED);
                    let (a, b) = (data.clone(), d2.clone());
                    let m1: Arc<dyn Fn() -> Res + Send + Sync> = Arc::new(move || decode(&o1, &a));
                    let m2: Arc<dyn Fn() -> Res + Send + Sync> = Arc::new(move || decode(&o2, &b));
                    c.note_input(data);
                    let r = deepen(c, &[m1, m2], &want, c.pick(2_500, 500_000));
                    pool::set_mode(pool::INLINE);
                    r
                },
            );
        }
    }
    // many decoders at the same time, in turn
    for n in [3usize, 4, 6, 8, 12, 16, 24, 33] {
        for off in 0..if n <= 8 { sc.len() } else { 4 } {
            c.case(
                || format!("{} decoders in turn, from scenario {}", n, off),
                |c| {
                    pool::set_mode(pool::INLINE);
                    let mut want = vec![];
                    let mut mains: Vec<Arc<dyn Fn() -> Res + Send + Sync>> = vec![];
                    for i in 0..n {
                        // all the same in one case out of three
                        let (_, d, o) = sc[(off + if off % 3 == 0 { 0 } else { i * off }) % sc.len()].clone();
                        let o = o.threads(1 + (i as u32 + off as u32) % 3);
                        want.push(decode(&o, &d));
                        mains.push(Arc::new(move || decode(&o, &d)));
                    }
                    pool::set_mode(pool::CONTROLLED);
                    let mut r = Ok(());
                    for q in (1..=c.pick(12u64, 40)).chain([100, 1000]) {
                        let (res, points, lost, dead) = sched::run_rr(q, &mains);
                        c.beat_now();
                        c.evals += 1;
                        c.count("states", points);
                        c.count("transitions", points);
                        c.count("validated", 1);
                        c.count("schedules", 1);
                        c.count("schedules_of_three_decoders_or_more", 1);
                        c.count("blocked_outside_scheduler", lost);
                        if dead {
                            r = Err(format!("{} points at a time: deadlock", q));
                        }
                        for i in 0..n {
                            if r.is_ok() && !res[i].same(&want[i]) {
                                r = Err(format!("{} points at a time: decoder {}: {} instead of {}", q, i, res[i].brief(), want[i].brief()));
                            }
                        }
                        if r.is_err() {
                            break;
                        }
                    }
                    pool::set_mode(pool::INLINE);
                    r
                },
            );
        }
    }
    // free-running threads: nothing is left running, nothing written afterwards
    for kind in 0..5usize {
        for threads in [1u32, 2, 3, 8] {
            c.case(
                || format!("{}: {} free-running threads", kind_name(kind), threads),
                |c| {
                    let img = filled(make(kind, 70, 300), 2);
                    let mut bad = baseline(&img);
                    let n = bad.len();
                    bad[n / 2] ^= 0xff;
                    for data in [baseline(&img), progressive(&img, &simple_script(&img)), bad] {
                        let o = DEF.threads(threads);
                        let want = c.decode(&o, &data);
                        for _ in 0..c.pick(4, 30) {
                            let before = nthreads();
                            pool::set_mode(pool::THREADS);
                            let r = c.decode(&o, &data);
                            pool::set_mode(pool::INLINE);
                            let snap = match &r {
                                Res::Ok(v) => Some(v.clone()),
                                _ => None,
                            };
                            let t0 = std::time::Instant::now();
                            while nthreads() > before {
                                if t0.elapsed().as_secs() > 20 {
                                    return Err(format!("{} threads are still there 20 s after decoding returned", nthreads() - before));
                                }
                                std::thread::sleep(std::time::Duration::from_millis(1));
                            }
                            if snap.as_ref() != r.ok() {
                                return Err("the result changed after decoding returned".into());
                            }
                            if !r.same(&want) {
                                return Err(format!("{} instead of {}", r.brief(), want.brief()));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

/// Explore with growing preemption bounds, as long as the next bound is expected to need at most
/// `cap` schedules. Bound 0 is always explored completely.
fn deepen(c: &mut Ctx, mains: &[Arc<dyn Fn() -> Res + Send + Sync>], want: &[Res], cap: u64) -> Result<(), String> {
    let (mut last, mut prev) = (0u64, 1u64);
    for bound in 0..6u32 {
        if bound >= 2 && last.saturating_mul(last) / prev.max(1) > cap {
            break;
        }
        let shm = c.shm;
        let mut seen = vec![];
        let (st, r) = sched::explore(
            bound,
            if bound < 1 { u64::MAX } else { cap },
            mains,
            |r, ch| {
                unsafe {
                    let p = shm.add(1);
                    p.write_volatile(p.read_volatile() + 1);
                }
                if seen.len() < 3 {
                    seen.push(ch.to_vec());
                }
                for i in 0..want.len() {
                    if !r[i].same(&want[i]) {
                        return Err(format!("decoder {}: {} instead of {}", i, r[i].brief(), want[i].brief()));
                    }
                }
                Ok(())
            },
            &[],
        );
        // the same choices give the same execution
        if r.is_ok() && st.lost == 0 {
            for s in &seen {
                let (_, t, _, lost, _) = sched::run_one(bound, s, mains);
                if lost == 0 && t.iter().map(|x| x.1).collect::<Vec<_>>() != *s {
                    c.count("replay_mismatch", 1);
                }
            }
        }
        stats(c, &st);
        r.map_err(|e| format!("with at most {} preemptions: {}", bound, e))?;
        if std::env::var("C10_DBG").is_ok() {
            eprintln!("bound {} schedules {} points {}", bound, st.schedules, st.points);
        }
        if !st.complete {
            c.count(&format!("scenarios_partly_explored_with_preemption_bound_{}", bound), 1);
            break;
        }
        c.count(&format!("scenarios_complete_with_preemption_bound_{}", bound), 1);
        if st.schedules == last {
            // no schedule needs more preemptions
            c.count("scenarios_with_every_schedule", 1);
            break;
        }
        prev = last;
        last = st.schedules;
    }
    Ok(())
}

fn stats(c: &mut Ctx, st: &sched::Stats) {
    c.evals += st.schedules;
    c.count("validated", st.schedules);
    c.count("states", st.choices + st.schedules);
    c.count("transitions", st.points);
    c.count("schedules", st.schedules);
    c.count("scheduling_points", st.points);
    c.max("max_choices_in_a_schedule", st.max_depth);
    c.count("blocked_outside_scheduler", st.lost);
}

/// the common universe (uni.rs)
fn universe(c: &mut Ctx) {
    uni::images(c, |c, u, img| {
        uni::files(c, u, img, 0..uni::FORMS, |c, form, tabs, ri, e| {
            let m = u.mix() + form + tabs * 3 + ri * 5;
            if m % 2 != 0 {
                return Ok(());
            }
            let d = file(&e.parts);
            let o = DEF.cs(CSS[m % 5]).us(m % 4 < 2).strict(m % 3 == 0);
            let want = c.decode(&o.threads(1), &d);
            for (n, mode) in [(2u32, pool::DEFER_REV), (3, pool::DEFER), (4, pool::INLINE), (5, pool::DEFER_REV), (8, pool::DEFER), (33, pool::DEFER_REV)] {
                pool::set_mode(mode);
                let r = c.decode(&o.threads(n), &d);
                pool::set_mode(pool::INLINE);
                c.count("states", 1);
                c.count("transitions", 1);
                if !r.same(&want) || want.ok().is_none() {
                    return Err(format!("{} threads, job order {}: {} instead of {}", n, mode, r.brief(), want.brief()));
                }
            }
            Ok(())
        })
    });
}
