mod alloc;
mod checks;
mod ctx;
mod jpeg;
mod sys;

use ctx::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::A = alloc::A;

/// a single decode may take this long before it counts as a hang
const HANG_MS: u64 = 100_000;

fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 2 && a[1] == "--worker" {
        worker(&a[2..], None);
    } else if a.len() >= 3 {
        let tier = if a[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
        if let Some(p) = a.iter().position(|x| x == "--case") {
            // replay one case in this process: mc ID tier --case PASS N
            let n: u64 = a[p + 2].parse().unwrap();
            worker(&[a[1].clone(), a[2].clone(), a[p + 1].clone(), "0".into(), "1".into(), "/tmp/mc-replay".into(), "100000".into()], Some(n));
        } else {
            std::process::exit(supervise(&a[1], tier));
        }
    } else {
        eprintln!("usage: mc ID quick|thorough [--case PASS N]");
        std::process::exit(2);
    }
}

fn worker(a: &[String], only: Option<u64>) -> ! {
    unsafe {
        sys::setrlimit(sys::RLIMIT_CORE, &[0, 0]);
        sys::prctl(1, 9); // die with the parent
    }
    hook_panics();
    let tier = if a[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let ch = checks::find(&a[0]).expect("unknown check");
    let pass = (ch.passes)(tier).into_iter().find(|p| p.name == a[2]).expect("unknown pass");
    let prefix = &a[5];
    let budget: u64 = a[6].parse().unwrap();
    if !setup_cpu(pass.cpu) {
        std::fs::write(format!("{}.stat", prefix), "unavailable 1\n").unwrap();
        std::process::exit(0);
    }
    let shm = sys::map_file(&format!("{}.shm", prefix), SHM_HDR + SHM_DATA / 8);
    let mut c = Ctx {
        id: a[0].clone(),
        tier,
        pass,
        shard: a[3].parse().unwrap(),
        nshards: a[4].parse().unwrap(),
        only,
        limit_case: None,
        deadline: Instant::now() + Duration::from_secs(budget),
        truncated: false,
        next: 0,
        evals: 0,
        cases: 0,
        distinct: HashSet::new(),
        samples: vec![],
        counters: BTreeMap::new(),
        shm,
        verbose: only.is_some(),
        t0: Instant::now(),
    };
    (ch.run)(&mut c);
    let (k, ms) = (format!("worker_ms {}", c.pass.name), c.t0.elapsed().as_millis() as u64);
    c.count(&k, ms);
    let mut s = String::new();
    s += &format!("evals {}\ncases {}\ntotal {}\ntruncated {}\n", c.evals, c.cases, c.next, c.truncated as u64);
    for x in &c.samples {
        s += &format!("sample {}\n", x.replace('\n', " "));
    }
    for (k, v) in &c.counters {
        s += &format!("c {} {}\n", k.replace(' ', "_"), v);
    }
    let mut h: Vec<u8> = Vec::with_capacity(c.distinct.len() * 8);
    for x in &c.distinct {
        h.extend_from_slice(&x.to_le_bytes());
    }
    std::fs::write(format!("{}.hash", prefix), h).unwrap();
    std::fs::write(format!("{}.stat", prefix), s).unwrap();
    if only.is_some() {
        println!("case finished without a violation (evaluations: {})", c.evals);
    }
    std::process::exit(0);
}

pub fn worker_violation(c: &mut Ctx, idx: u64, label: &str, msg: &str) -> ! {
    if c.verbose {
        println!("VIOLATION in case {}: {}\n  {}", idx, label, msg);
        std::process::exit(3);
    }
    let a: Vec<String> = std::env::args().collect();
    let prefix = &a[7];
    std::fs::write(format!("{}.viol", prefix), format!("{}\n{}\n{}\n", idx, label.replace('\n', " "), msg)).unwrap();
    std::process::exit(3);
}

struct Task {
    pass: Pass,
    shard: usize,
    prefix: String,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// the other builds lie beside the release build
fn builds(exe: &std::path::Path, which: &str) -> std::path::PathBuf {
    let t = exe.parent().unwrap().parent().unwrap();
    match which {
        "checked" => t.join("v-checked/checked/mc"),
        "asan" => t.join("v-asan/x86_64-unknown-linux-gnu/release/mc"),
        _ => exe.to_path_buf(),
    }
}

fn supervise(id: &str, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let Some(ch) = checks::find(id) else {
        eprintln!("unknown check {}", id);
        return 2;
    };
    let dir = verif();
    let ev = format!("{}/evidence", dir);
    let rp = format!("{}/replay", ev);
    std::fs::create_dir_all(&rp).unwrap();
    let work = format!("{}/work-{}-{}", ev, id, std::process::id());
    std::fs::create_dir_all(&work).unwrap();
    let budget: u64 = std::env::var("MC_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 420,
        Tier::Thorough => 3000,
    });
    let end = t0 + Duration::from_secs(budget);
    let mut tasks: Vec<Task> = vec![];
    let mut absent: Vec<String> = vec![];
    let exe = std::env::current_exe().unwrap();
    for p in (ch.passes)(tier) {
        if !std::path::Path::new(&builds(&exe, p.build)).exists() {
            absent.push(p.name.into());
            continue;
        }
        for s in 0..p.shards {
            tasks.push(Task { prefix: format!("{}/{}-{}", work, p.name, s), pass: p.clone(), shard: s });
        }
    }
    tasks.reverse();
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let par = std::env::var("MC_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
    let mut running: Vec<(Task, Child, *mut u64, (u64, Instant))> = vec![];
    let mut done: Vec<Task> = vec![];
    // (pass, case, text, kind)
    let mut viol: Option<(String, u64, String, Vec<u8>)> = None;
    let mut broken: Option<String> = None;
    loop {
        while running.len() < par && viol.is_none() && broken.is_none() {
            let Some(t) = tasks.pop() else { break };
            let left = end.saturating_duration_since(Instant::now()).as_secs().max(2);
            let shm = sys::map_file(&format!("{}.shm", t.prefix), SHM_HDR + SHM_DATA / 8);
            let c = Command::new(builds(&exe, t.pass.build))
                .env("ASAN_OPTIONS", "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_segv=1")
                .args(["--worker", id, tname, t.pass.name, &t.shard.to_string(), &t.pass.shards.to_string(), &t.prefix, &left.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::inherit())
                .spawn()
                .unwrap();
            running.push((t, c, shm, (0, Instant::now())));
        }
        if running.is_empty() {
            break;
        }
        let mut i = 0;
        while i < running.len() {
            let (t, c, shm, beat) = &mut running[i];
            let cur = unsafe { shm.read_volatile() };
            let tick = unsafe { shm.add(1).read_volatile() };
            let data = || unsafe {
                let n = (shm.add(2).read_volatile() as usize).min(SHM_DATA);
                std::slice::from_raw_parts(shm.add(SHM_HDR) as *const u8, n).to_vec()
            };
            match c.try_wait().unwrap() {
                Some(st) => {
                    let d = data();
                    let code = st.code();
                    if code == Some(0) {
                        unsafe { sys::munmap(*shm as *mut _, (SHM_HDR + SHM_DATA / 8) * 8) };
                        let r = running.swap_remove(i);
                        done.push(r.0);
                        continue;
                    } else if code == Some(3) && viol.is_none() {
                        let m = std::fs::read_to_string(format!("{}.viol", t.prefix)).unwrap_or_default();
                        viol = Some((t.pass.name.into(), cur.wrapping_sub(1), m, d));
                    } else if let Some(sig) = st.signal() {
                        if sig == 9 {
                            if viol.is_none() && broken.is_none() {
                                broken = Some("worker was killed (memory?)".into());
                            }
                        } else if viol.is_none() {
                            viol = Some((
                                t.pass.name.into(),
                                cur.wrapping_sub(1),
                                format!("{}\n(see input)\nthe decoder killed the process with signal {} ({})\n", cur.wrapping_sub(1), sig,
                                    match sig { 11 => "SIGSEGV: access outside its buffers", 7 => "SIGBUS", 6 => "SIGABRT: abort", 4 => "SIGILL", 8 => "SIGFPE", _ => "?" }),
                                d,
                            ));
                        }
                    } else if viol.is_none() && broken.is_none() {
                        broken = Some(format!("worker failed: {:?}", st));
                    }
                    running.swap_remove(i);
                    continue;
                }
                None => {
                    if tick == 0 || tick != beat.0 {
                        *beat = (tick, Instant::now());
                    } else if beat.1.elapsed().as_millis() as u64 > HANG_MS && viol.is_none() {
                        let d = data();
                        viol = Some((t.pass.name.into(), cur.wrapping_sub(1),
                            format!("{}\n(see input)\nno answer after {} s: the decoder does not return\n", cur.wrapping_sub(1), HANG_MS / 1000), d));
                    }
                }
            }
            i += 1;
        }
        if viol.is_some() || broken.is_some() {
            for (_, c, _, _) in running.iter_mut() {
                let _ = c.kill();
                let _ = c.wait();
            }
            running.clear();
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    // merge statistics
    let (mut evals, mut cases, mut truncated) = (0u64, 0u64, false);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut skipped: Vec<String> = absent;
    let mut passes: BTreeMap<String, u64> = BTreeMap::new();
    for t in &done {
        let s = std::fs::read_to_string(format!("{}.stat", t.prefix)).unwrap_or_default();
        for l in s.lines() {
            let mut w = l.splitn(2, ' ');
            let (k, v) = (w.next().unwrap(), w.next().unwrap_or(""));
            match k {
                "evals" => {
                    let n: u64 = v.parse().unwrap();
                    evals += n;
                    *passes.entry(t.pass.name.into()).or_insert(0) += n;
                }
                "cases" => cases += v.parse::<u64>().unwrap(),
                "truncated" => truncated |= v == "1",
                "sample" => {
                    if samples.len() < 12 && samples.iter().filter(|x| x.starts_with(&format!("{} ", t.pass.name))).count() < 4 {
                        samples.push(format!("{} {}", t.pass.name, v))
                    }
                }
                "c" => {
                    let mut w = v.split(' ');
                    let (k, n) = (w.next().unwrap().to_string(), w.next().unwrap().parse::<u64>().unwrap());
                    let e = counters.entry(k.clone()).or_insert(0);
                    if k.starts_with("max_") {
                        *e = (*e).max(n)
                    } else {
                        *e += n
                    }
                }
                "unavailable" => {
                    if !skipped.contains(&t.pass.name.to_string()) {
                        skipped.push(t.pass.name.into())
                    }
                }
                _ => {}
            }
        }
        if let Ok(h) = std::fs::read(format!("{}.hash", t.prefix)) {
            for c in h.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&work);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut cov = String::new();
    let states = counters.get("states").copied().unwrap_or(cases);
    let trans = counters.get("transitions").copied().unwrap_or(evals);
    let valid = counters.get("validated").copied().unwrap_or(0);
    match ch.level {
        "model_checking" => {
            cov += &format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, ", states, trans, valid)
        }
        _ => cov += &format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, ", evals, distinct.len()),
    }
    cov += &format!("\"cases\": {}, \"distinct_executions\": {}, \"rule\": {}, ", cases, distinct.len(), esc(ch.rule));
    cov += &format!("\"exhaustive\": {}, ", !truncated && !counters.keys().any(|k| k.contains("partly")) && skipped.is_empty() && viol.is_none() && broken.is_none());
    cov += "\"passes\": {";
    cov += &passes.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
    cov += "}, \"counters\": {";
    cov += &counters.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
    cov += "}, \"skipped_passes\": [";
    cov += &skipped.iter().map(|k| esc(k)).collect::<Vec<_>>().join(", ");
    cov += "], \"samples\": [";
    cov += &samples.iter().map(|k| esc(k)).collect::<Vec<_>>().join(", ");
    cov += "]";
    let js = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        esc(id),
        esc(tname),
        seed,
        esc(ch.level),
        cov,
        ch.assumptions.iter().map(|k| esc(k)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        viol.is_some() as u8
    );
    std::fs::write(format!("{}/{}.json", ev, id), js).unwrap();
    if let Some((pass, case, msg, data)) = viol {
        let base = format!("{}/{}", rp, id);
        let mut f = std::fs::File::create(format!("{}.txt", base)).unwrap();
        let mut l = msg.lines();
        l.next();
        writeln!(f, "property {}\npass {}\ncase {}\n{}", id, pass, case, l.collect::<Vec<_>>().join("\n")).unwrap();
        writeln!(f, "input of the last decode: {}.jpg ({} bytes)", base, data.len()).unwrap();
        let b = (ch.passes)(tier).into_iter().find(|p| p.name == pass).map_or("release", |p| p.build);
        writeln!(f, "replay: {} {} {} --case {} {}", builds(&exe, b).display(), id, tname, pass, case).unwrap();
        std::fs::write(format!("{}.jpg", base), data).unwrap();
        print!("{}", std::fs::read_to_string(format!("{}.txt", base)).unwrap());
        println!("VIOLATION property={} replay={}.txt", id, base);
        return 1;
    }
    if let Some(b) = broken {
        eprintln!("check {} failed: {}", id, b);
        return 2;
    }
    println!(
        "{} {}: held on {} cases, {} executions ({} distinct){}{} in {:.1} s",
        id,
        tname,
        cases,
        evals,
        distinct.len(),
        if truncated { ", TIME CAP HIT" } else { "" },
        if skipped.is_empty() { String::new() } else { format!(", skipped passes {:?}", skipped) },
        t0.elapsed().as_secs_f64()
    );
    0
}
