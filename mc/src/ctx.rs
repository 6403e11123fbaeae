//! Worker-side context: case enumeration, decoding through the public API, statistics.
use crate::alloc;
use crate::sys;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::num::NonZeroU32;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use zj::ColorSpace as Cs;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cpu {
    Native,
    NoAvx2,
    NoSimd,
}

#[derive(Clone, Debug)]
pub struct Pass {
    pub name: &'static str,
    pub cpu: Cpu,
    pub alloc: u8,
    pub shards: usize,
    /// which build of the harness runs it: "release", "checked" (overflow checks and debug
    /// assertions) or "asan" (address sanitizer)
    pub build: &'static str,
}
impl Pass {
    pub fn new(name: &'static str, cpu: Cpu, shards: usize) -> Pass {
        Pass { name, cpu, alloc: alloc::SYSTEM, shards, build: "release" }
    }
    pub fn build(mut self, b: &'static str) -> Pass {
        self.build = b;
        self
    }
    pub fn alloc(mut self, m: u8) -> Pass {
        self.alloc = m;
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Opt {
    pub cs: Cs,
    pub us: bool,
    pub threads: u32,
    pub strict: bool,
    pub maxw: u16,
    pub maxh: u16,
    pub max_scans: usize,
}
pub const DEF: Opt =
    Opt { cs: Cs::RGB, us: true, threads: 4, strict: false, maxw: 1 << 14, maxh: 1 << 14, max_scans: 64 };
impl Opt {
    pub fn cs(mut self, c: Cs) -> Opt {
        self.cs = c;
        self
    }
    pub fn us(mut self, u: bool) -> Opt {
        self.us = u;
        self
    }
    pub fn strict(mut self, u: bool) -> Opt {
        self.strict = u;
        self
    }
    pub fn threads(mut self, u: u32) -> Opt {
        self.threads = u;
        self
    }
    pub fn max(mut self, w: u16, h: u16) -> Opt {
        self.maxw = w;
        self.maxh = h;
        self
    }
    pub fn scans(mut self, n: usize) -> Opt {
        self.max_scans = n;
        self
    }
    pub fn zj(&self) -> zj::ZuneJpegOptions {
        zj::ZuneJpegOptions::new()
            .set_out_colorspace(self.cs)
            .set_use_unsafe(self.us)
            .set_num_threads(NonZeroU32::new(self.threads).unwrap())
            .set_strict_mode(self.strict)
            .set_max_width(self.maxw)
            .set_max_height(self.maxh)
            .set_max_scans(self.max_scans)
    }
    pub fn zjp(&self) -> zjp::ZuneJpegOptions {
        zjp::ZuneJpegOptions::new()
            .set_out_colorspace(csp(self.cs))
            .set_use_unsafe(self.us)
            .set_num_threads(NonZeroU32::new(self.threads).unwrap())
            .set_strict_mode(self.strict)
            .set_max_width(self.maxw)
            .set_max_height(self.maxh)
            .set_max_scans(self.max_scans)
    }
}
pub fn csp(c: Cs) -> zjp::ColorSpace {
    match c {
        Cs::RGB => zjp::ColorSpace::RGB,
        Cs::GRAYSCALE => zjp::ColorSpace::GRAYSCALE,
        Cs::YCbCr => zjp::ColorSpace::YCbCr,
        Cs::CMYK => zjp::ColorSpace::CMYK,
        Cs::YCCK => zjp::ColorSpace::YCCK,
        Cs::RGBA => zjp::ColorSpace::RGBA,
        Cs::RGBX => zjp::ColorSpace::RGBX,
    }
}

#[derive(Clone, PartialEq, Eq)]
pub struct Meta {
    pub w: u16,
    pub h: u16,
    pub comps: u8,
    pub sof: String,
    pub cs: String,
    pub ch: usize,
    /// width and height in the info record, its sample precision, and what the process says of itself
    /// (progressive, sequential, lossless)
    pub info: (u16, u16, u8),
    pub class: (bool, bool, bool),
}
impl Meta {
    pub fn of(d: &zj::Decoder) -> Meta {
        let i = d.info();
        Meta {
            w: d.width(),
            h: d.height(),
            comps: i.as_ref().map_or(0, |i| i.components),
            sof: i.as_ref().map_or(String::new(), |i| format!("{:?}", i.sof)),
            cs: format!("{:?}", d.get_output_colorspace()),
            ch: d.get_output_colorspace().num_components(),
            info: i.as_ref().map_or((0, 0, 0), |i| (i.width, i.height, i.pixel_density)),
            class: i.as_ref().map_or((false, false, false), |i| (i.sof.is_progressive(), i.sof.is_sequential_dct(), i.sof.is_lossless())),
        }
    }
}
impl std::fmt::Debug for Meta {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}x{} comps={} {} out={}", self.w, self.h, self.comps, self.sof, self.cs)
    }
}

#[derive(Clone, PartialEq, Eq)]
pub enum Res {
    Ok(Vec<u8>),
    Err(String),
    Panic(String),
}
impl Res {
    pub fn ok(&self) -> Option<&Vec<u8>> {
        match self {
            Res::Ok(v) => Some(v),
            _ => None,
        }
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Res::Err(_))
    }
    pub fn brief(&self) -> String {
        match self {
            Res::Ok(v) => {
                let mut h = DefaultHasher::new();
                v.hash(&mut h);
                format!("pixels[{} bytes, hash {:016x}]", v.len(), h.finish())
            }
            Res::Err(e) => format!("error({})", e.replace('\n', " ")),
            Res::Panic(e) => format!("PANIC({})", e.replace('\n', " ")),
        }
    }
    /// same pixels, or both an error (messages are not compared); panics are never equal
    pub fn same(&self, o: &Res) -> bool {
        match (self, o) {
            (Res::Ok(a), Res::Ok(b)) => a == b,
            (Res::Err(_), Res::Err(_)) => true,
            _ => false,
        }
    }
    /// the pixels, or a violation message
    pub fn want(self, what: &str) -> Result<Vec<u8>, String> {
        match self {
            Res::Ok(v) => Ok(v),
            r => Err(format!("{}: expected pixels, got {}", what, r.brief())),
        }
    }
}
pub fn first_diff(a: &[u8], b: &[u8], width: usize, ch: usize) -> String {
    if a.len() != b.len() {
        return format!("lengths {} and {}", a.len(), b.len());
    }
    let n = a.iter().zip(b).filter(|(x, y)| x != y).count();
    match a.iter().zip(b).position(|(x, y)| x != y) {
        None => "equal".into(),
        Some(i) => format!(
            "{} of {} bytes differ, first at x={} y={} channel={}: {} and {}",
            n,
            a.len(),
            i / ch % width,
            i / ch / width,
            i % ch,
            a[i],
            b[i]
        ),
    }
}

pub const SHM_HDR: usize = 64;
pub const SHM_DATA: usize = 1 << 20;

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn hook_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{}{}", m, l);
            }
        });
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}
/// run `f`; a panic becomes Err(message)
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub pass: Pass,
    pub shard: usize,
    pub nshards: usize,
    pub only: Option<u64>,
    pub limit_case: Option<u64>,
    pub deadline: std::time::Instant,
    pub truncated: bool,
    pub next: u64,
    pub evals: u64,
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub shm: *mut u64,
    pub verbose: bool,
    pub t0: std::time::Instant,
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    fn shm_set(&self, i: usize, v: u64) {
        unsafe { self.shm.add(i).write_volatile(v) }
    }
    pub fn beat_now(&self) {
        self.beat()
    }
    fn beat(&self) {
        self.shm_set(1, self.t0.elapsed().as_millis() as u64 + 1);
    }
    pub fn note_input(&self, data: &[u8]) {
        unsafe {
            let n = data.len().min(SHM_DATA);
            self.shm.add(2).write_volatile(n as u64);
            std::ptr::copy_nonoverlapping(data.as_ptr(), self.shm.add(SHM_HDR) as *mut u8, n);
        }
    }
    /// One enumerated case. `label` describes it; `f` returns Err(message) on a violation.
    pub fn case(&mut self, label: impl Fn() -> String, f: impl FnOnce(&mut Ctx) -> Result<(), String>) {
        let idx = self.next;
        self.next += 1;
        if let Some(o) = self.only {
            if o != idx {
                return;
            }
        } else if idx as usize % self.nshards != self.shard {
            return;
        }
        if self.truncated {
            return;
        }
        if self.cases & 15 == 0 && std::time::Instant::now() > self.deadline {
            self.truncated = true;
            return;
        }
        self.shm_set(0, idx + 1);
        self.beat();
        self.cases += 1;
        if self.verbose {
            println!("case {}: {}", idx, label());
        }
        if self.samples.len() < 3 && (self.cases == 1 || self.cases == 17 || self.cases == 401) {
            self.samples.push(format!("#{} {}", idx, label()));
        }
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => crate::worker_violation(self, idx, &label(), &m),
            Err(_) => {
                eprintln!("harness panic in case {} ({}): {}", idx, label(), last_panic());
                std::process::exit(2);
            }
        }
        self.shm_set(1, 0);
    }
    pub fn seen(&mut self, opt: &impl Hash, data: &[u8]) {
        let mut h = DefaultHasher::new();
        opt.hash(&mut h);
        data.hash(&mut h);
        self.distinct.insert(h.finish());
    }
    fn enter(&mut self, tag: u64, o: &Opt, data: &[u8]) {
        self.evals += 1;
        let k = (tag, o.cs as u8, o.us, o.threads, o.strict, o.maxw, o.maxh, o.max_scans, self.pass.cpu as u8, self.pass.alloc);
        self.seen(&k, data);
        self.note_input(data);
        self.beat();
    }
    /// decode with the build under test
    pub fn decode(&mut self, o: &Opt, data: &[u8]) -> Res {
        self.decode_meta(o, data).0
    }
    pub fn decode_meta(&mut self, o: &Opt, data: &[u8]) -> (Res, Option<Meta>) {
        self.enter(1, o, data);
        let m = self.pass.alloc;
        let r = guard(|| {
            alloc::with_mode(m, || {
                let mut d = zj::Decoder::new_with_options(o.zj());
                let r = d.decode_buffer(data).map_err(|e| format!("{:?}", e));
                let me = Meta::of(&d);
                (r, me)
            })
        });
        match r {
            Ok((Ok(v), m)) => (Res::Ok(if self.pass.alloc != 0 { v.to_vec() } else { v }), Some(m)),
            Ok((Err(e), m)) => (Res::Err(String::from(e.as_str())), Some(m)),
            Err(p) => (Res::Panic(p), None),
        }
    }
    pub fn headers(&mut self, o: &Opt, data: &[u8]) -> (Result<Meta, String>, bool) {
        self.enter(2, o, data);
        let m = self.pass.alloc;
        let r = guard(|| {
            alloc::with_mode(m, || {
                let mut d = zj::Decoder::new_with_options(o.zj());
                let r = d.read_headers(data).map_err(|e| format!("{:?}", e));
                r.map(|_| Meta::of(&d))
            })
        });
        match r {
            Ok(Ok(m)) => (Ok(m), false),
            Ok(Err(e)) => (Err(e), false),
            Err(p) => (Err(p), true),
        }
    }
    /// decode with the build that has the `x86` feature off
    pub fn decode_p(&mut self, o: &Opt, data: &[u8]) -> Res {
        self.enter(3, o, data);
        let r = guard(|| {
            let mut d = zjp::Decoder::new_with_options(o.zjp());
            d.decode_buffer(data).map_err(|e| format!("{:?}", e))
        });
        match r {
            Ok(Ok(v)) => Res::Ok(v),
            Ok(Err(e)) => Res::Err(e),
            Err(p) => Res::Panic(p),
        }
    }
}

pub fn setup_cpu(c: Cpu) -> bool {
    match c {
        Cpu::Native => true,
        Cpu::NoAvx2 => sys::hide_cpu_features(true, false),
        Cpu::NoSimd => sys::hide_cpu_features(true, true),
    }
}
