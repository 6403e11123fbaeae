//! All entry points and ways of setting an option agree.
use super::c11::{files, Op};
use super::common::*;
use super::*;
use crate::jpeg::*;
use scoped_threadpool as pool;
use std::num::NonZeroU32;
use std::sync::atomic::Ordering::SeqCst;

pub fn check() -> Check {
    Check {
        id: "C17",
        level: "model_checking",
        rule: "states: option records and decoder histories; (a) every sequence of option setters up to the depth over boundary values of every option, every getter compared with the model record after every step, plus all 65536 values of each limit; (b) every sequence of deprecated setters on a decoder up to the depth, with header reads and decodes in between, against a decoder constructed with the model's options: result, metadata and number of pool threads; the effect of every limit 0..65535 and thread count 1..65536 (and multiples of 65536) set that way; (c) decode_file against decode_buffer for every file of the alphabet, every cut length near buffer sizes and at powers of two, every option record, path type, file name, ending and beginning of a list, header layout, links, files that change between calls, and paths that cannot be read; (d) Decoder::new() against default options",
        assumptions: &["the pool stand-in in /verif/pool records the requested thread count"],
        passes: native_pass,
        run,
    }
}

type O = zj::ZuneJpegOptions;
#[derive(Clone, Copy, Debug)]
enum Set {
    Cs(Cs),
    Us(bool),
    Threads(u32),
    W(u16),
    H(u16),
    Scans(usize),
    Strict(bool),
}
fn set(o: O, s: Set) -> O {
    match s {
        Set::Cs(c) => o.set_out_colorspace(c),
        Set::Us(b) => o.set_use_unsafe(b),
        Set::Threads(n) => o.set_num_threads(NonZeroU32::new(n).unwrap()),
        Set::W(n) => o.set_max_width(n),
        Set::H(n) => o.set_max_height(n),
        Set::Scans(n) => o.set_max_scans(n),
        Set::Strict(b) => o.set_strict_mode(b),
    }
}
fn mset(mut o: Opt, s: Set) -> Opt {
    match s {
        Set::Cs(c) => o.cs = c,
        Set::Us(b) => o.us = b,
        Set::Threads(n) => o.threads = n,
        Set::W(n) => o.maxw = n,
        Set::H(n) => o.maxh = n,
        Set::Scans(n) => o.max_scans = n,
        Set::Strict(b) => o.strict = b,
    }
    o
}
fn get(o: &O) -> Opt {
    Opt {
        cs: o.get_out_colorspace(),
        us: o.get_use_unsafe(),
        threads: o.get_threads(),
        strict: o.get_strict_mode(),
        maxw: o.get_max_width(),
        maxh: o.get_max_height(),
        max_scans: o.get_max_scans(),
    }
}
const ALLCS: [Cs; 7] = [Cs::RGB, Cs::GRAYSCALE, Cs::YCbCr, Cs::CMYK, Cs::YCCK, Cs::RGBA, Cs::RGBX];

/// what a decoder shows after one call
#[derive(PartialEq, Clone)]
struct Obs {
    r: Result<Vec<u8>, ()>,
    meta: Meta,
    threads: u32,
    pools: u64,
}
impl Obs {
    fn brief(&self) -> String {
        let r = match &self.r {
            Ok(v) => Res::Ok(v.clone()).brief(),
            Err(_) => "error".into(),
        };
        format!("{} reporting {:?} with {} pool threads", r, self.meta, self.threads)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Buffer,
    File,
    Headers,
}
fn observe(d: &mut zj::Decoder, how: How, data: &[u8], path: &str) -> Result<Obs, String> {
    pool::LAST_THREADS.store(0, SeqCst);
    let p0 = pool::POOLS.load(SeqCst);
    let r = guard(|| match how {
        How::Buffer => d.decode_buffer(data).map_err(|_| ()),
        How::File => d.decode_file(path).map_err(|_| ()),
        How::Headers => d.read_headers(data).map(|_| vec![]).map_err(|_| ()),
    })?;
    Ok(Obs { r, meta: Meta::of(d), threads: pool::LAST_THREADS.load(SeqCst), pools: pool::POOLS.load(SeqCst) - p0 })
}

/// what other programs leave at the end (or the beginning) of a file
const TAILS: &[&[u8]] = &[
    b"",
    b"\n",
    b"\r\n",
    b"\0",
    b"\0\0\0\0",
    b" ",
    b"\t",
    b"\x1a",
    b"\xef\xbb\xbf",
    &[0xff],
    &[0xff, 0xff],
    &[0xd9],
    &[0xff, 0xd9],
    &[0xff, 0xd9, 0xff, 0xd9],
    &[0xff, 0xd8],
    &[0xff, 0xd8, 0xff, 0xd9],
    &[0xff, 0x00],
    &[0xff, 0xd0],
    &[0x1f, 0x8b],
    b"PK\x03\x04",
    b"</html>\n",
];

struct Scratch(String);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[allow(deprecated)]
fn run(c: &mut Ctx) {
    universe(c);
    // ---- (a) the option record
    let mut alpha: Vec<Set> = ALLCS.iter().map(|&x| Set::Cs(x)).collect();
    alpha.extend([true, false].map(Set::Us));
    alpha.extend([true, false].map(Set::Strict));
    alpha.extend([1u32, 2, 4, 255, 256, 65536, u32::MAX].map(Set::Threads));
    alpha.extend([0u16, 1, 255, 256, 16384, 16385, 65535].map(Set::W));
    alpha.extend([0u16, 1, 255, 256, 16384, 16385, 65535].map(Set::H));
    alpha.extend([0usize, 1, 63, 64, 65, 256, usize::MAX].map(Set::Scans));
    let n = alpha.len();
    c.case(
        || "default options".into(),
        |_| {
            for (what, o) in [("new()", O::new()), ("default()", O::default())] {
                if get(&o) != get(&O::default()) {
                    return Err(format!("{} gives {:?} and default() {:?}", what, get(&o), get(&O::default())));
                }
            }
            // documented defaults
            let d = get(&O::new());
            if (d.cs, d.threads, d.maxw, d.maxh, d.max_scans) != (Cs::RGB, 4, 16384, 16384, 64) {
                return Err(format!("default options are {:?}, documented {:?}", d, DEF));
            }
            Ok(())
        },
    );
    let depth = c.pick(4u32, 5);
    for a in 0..n {
        for b in 0..n {
            c.case(
                || format!("option setters: sequences of {} starting {:?}, {:?}", depth, alpha[a], alpha[b]),
                |c| {
                    // prefixes are checked at every step
                    fn rec(c: &mut Ctx, alpha: &[Set], o: O, m: Opt, left: u32, h: &mut Vec<Set>) -> Result<(), String> {
                        c.count("transitions", 1);
                        c.count("states", 1);
                        if get(&o) != m {
                            return Err(format!("after {:?} the options are {:?} instead of {:?}", h, get(&o), m));
                        }
                        if left == 0 {
                            return Ok(());
                        }
                        for &s in alpha {
                            h.push(s);
                            rec(c, alpha, set(o, s), mset(m, s), left - 1, h)?;
                            h.pop();
                        }
                        Ok(())
                    }
                    let mut o = O::new();
                    let mut m = DEF;
                    for s in [alpha[a], alpha[b]] {
                        o = set(o, s);
                        m = mset(m, s);
                    }
                    c.evals += 1;
                    rec(c, &alpha, o, m, depth - 2, &mut vec![alpha[a], alpha[b]])
                },
            );
        }
    }
    c.case(
        || "every value of each limit".into(),
        |c| {
            for v in 0..=65535u16 {
                for s in [Set::W(v), Set::H(v), Set::Threads(v as u32 + 1), Set::Threads((v as u32) << 16 | 1), Set::Scans(v as usize), Set::Scans((v as usize) << 40)] {
                    let (o, m) = (set(O::new(), s), mset(DEF, s));
                    c.count("states", 1);
                    if get(&o) != m {
                        return Err(format!("{:?} gives {:?}", s, get(&o)));
                    }
                }
            }
            c.evals += 1;
            Ok(())
        },
    );

    // ---- scratch files
    let fs: Vec<(String, Vec<u8>)> = files();
    let dir = format!("/tmp/verif-c17-{}", std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let _guard = Scratch(dir.clone());
    let paths: Vec<String> = fs
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let p = format!("{}/f{}.jpg", dir, i);
            std::fs::write(&p, &f.1).unwrap();
            p
        })
        .collect();

    // ---- (b) deprecated setters
    let mut dep: Vec<Op> = vec![Op::Rgba];
    dep.extend(ALLCS.iter().map(|&x| Op::Cs(x)));
    dep.extend([(0u16, 0u16), (8, 100), (100, 8), (17, 17), (18, 17), (17, 18), (65535, 65535)].map(|(w, h)| Op::Limits(w, h)));
    dep.extend([0usize, 1, 3, 7, 1 << 32, (1 << 32) + 2, usize::MAX].map(Op::Threads));
    let used: Vec<usize> = vec![0, 3, 5, 6, 11];
    let bases = [DEF, DEF.cs(Cs::RGBX).us(false).threads(2).scans(3), DEF.strict(true).max(18, 18)];
    let m = dep.len();
    let depth = c.pick(2u32, 3);
    for (bi, base) in bases.iter().enumerate() {
        for a in 0..m {
            for mid in 0..3usize {
                c.case(
                    || format!("deprecated setters on options #{}: sequences of up to {} after {:?}, intermediate call {}", bi, depth + 1, dep[a], mid),
                    |c| {
                        // the whole tree below the first setter
                        let mut stack: Vec<Vec<usize>> = vec![vec![a]];
                        while let Some(h) = stack.pop() {
                            if h.len() < depth as usize + 1 {
                                for b in 0..m {
                                    let mut g = h.clone();
                                    g.push(b);
                                    stack.push(g);
                                }
                            }
                            c.count("states", 1);
                            c.evals += 1;
                            c.seen(&(bi, mid, &h), &[]);
                            let fi = used[(h.iter().sum::<usize>() + h.len()) % used.len()];
                            for how in [How::Buffer, How::Headers, How::File] {
                                if how == How::File && h.len() > 2 {
                                    continue;
                                }
                                let mut d = zj::Decoder::new_with_options(base.zj());
                                let mut o = *base;
                                for (k, &i) in h.iter().enumerate() {
                                    let op = dep[i];
                                    c.count("transitions", 1);
                                    let bad = matches!(op, Op::Threads(n) if n == 0 || n > u32::MAX as usize);
                                    let r: Result<(), ()> = guard(|| match op {
                                        Op::Rgba => {
                                            d.rgba();
                                            Ok(())
                                        }
                                        Op::Cs(x) => {
                                            d.set_output_colorspace(x);
                                            Ok(())
                                        }
                                        Op::Limits(w, h) => {
                                            d.set_limits(w, h);
                                            Ok(())
                                        }
                                        Op::Threads(n) => d.set_num_threads(n).map_err(|_| ()),
                                        _ => Ok(()),
                                    })
                                    .map_err(|p| format!("{:?} panics: {}", op, p))?;
                                    if r.is_err() != bad {
                                        return Err(format!("{:?} after {:?} returns {:?}", op, h[..k].iter().map(|&i| dep[i]).collect::<Vec<_>>(), r));
                                    }
                                    if !bad {
                                        o = super::c11::model(o, op);
                                    }
                                    // the colourspace getter follows at once (no one-component image was read)
                                    if mid == 0 && d.get_output_colorspace() != o.cs {
                                        return Err(format!("after {:?} the decoder reports {:?}", h[..=k].iter().map(|&i| dep[i]).collect::<Vec<_>>(), d.get_output_colorspace()));
                                    }
                                    if mid > 0 && k == 0 {
                                        let f = used[(mid + bi) % used.len()];
                                        let _ = observe(&mut d, if mid == 1 { How::Headers } else { How::Buffer }, &fs[f].1, &paths[f])?;
                                    }
                                }
                                c.note_input(&fs[fi].1);
                                let got = observe(&mut d, how, &fs[fi].1, &paths[fi])?;
                                let mut e = zj::Decoder::new_with_options(o.zj());
                                let want = observe(&mut e, how, &fs[fi].1, &paths[fi])?;
                                c.count("validated", 1);
                                if got != want {
                                    return Err(format!(
                                        "{:?} of {} after {:?} on {:?}: {}; with the options set at construction: {}",
                                        how,
                                        fs[fi].0,
                                        h.iter().map(|&i| dep[i]).collect::<Vec<_>>(),
                                        base,
                                        got.brief(),
                                        want.brief()
                                    ));
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }

    // the effect of every value, not only of the boundary ones
    for hi in 0..64u32 {
        c.case(
            || format!("deprecated setters: every limit and thread count {}..{}", hi * 1024, hi * 1024 + 1023),
            |c| {
                let small = baseline(&filled(Image::gray(1, 1), 1));
                let sof = small.windows(2).position(|w| w == [0xff, 0xc0]).unwrap();
                let mut f = small.clone();
                for v in hi * 1024..hi * 1024 + 1024 {
                    for (lw, lh) in [(v, 65535), (65535, v), (v, v)] {
                        for dim in v.saturating_sub(1)..=v + 1 {
                            if dim == 0 || dim > 65535 {
                                continue;
                            }
                            for (w, h) in [(dim, 1), (1, dim)] {
                                f[sof + 5..sof + 7].copy_from_slice(&(h as u16).to_be_bytes());
                                f[sof + 7..sof + 9].copy_from_slice(&(w as u16).to_be_bytes());
                                c.evals += 1;
                                c.count("transitions", 2);
                                let mut d = zj::Decoder::new_with_options(DEF.zj());
                                d.set_limits(lw as u16, lh as u16);
                                let mut e = zj::Decoder::new_with_options(DEF.max(lw as u16, lh as u16).zj());
                                let (a, b) = guard(|| (d.read_headers(&f).is_ok(), e.read_headers(&f).is_ok()))?;
                                if a != b || Meta::of(&d) != Meta::of(&e) {
                                    c.note_input(&f);
                                    return Err(format!("set_limits({}, {}) {} an image of {}x{}, the options at construction {}", lw, lh, if a { "accepts" } else { "rejects" }, w, h, if b { "accept it" } else { "reject it" }));
                                }
                            }
                        }
                    }
                    for n in [v as u64 + 1, (v as u64 + 1) << 16, ((v as u64) << 16) + 0xffff] {
                        if n > u32::MAX as u64 {
                            continue;
                        }
                        let mut d = zj::Decoder::new_with_options(DEF.zj());
                        if d.set_num_threads(n as usize).is_err() {
                            return Err(format!("set_num_threads({}) is refused", n));
                        }
                        let got = observe(&mut d, How::Buffer, &small, "")?;
                        let want = observe(&mut zj::Decoder::new_with_options(DEF.threads(n as u32).zj()), How::Buffer, &small, "")?;
                        if got != want {
                            return Err(format!("after set_num_threads({}): {}; with the options set at construction: {}", n, got.brief(), want.brief()));
                        }
                    }
                }
                Ok(())
            },
        );
    }

    // ---- (c) files and buffers, (d) new()
    let big = filled(Image::color(40, 24, (2, 2)), 7);
    let bigf = baseline(&big);
    for (i, f) in fs.iter().enumerate() {
        c.case(
            || format!("{}: decode_file, decode_buffer and Decoder::new()", f.0),
            |c| {
                for &cs in &ALLCS {
                    for strict in [false, true] {
                        for us in [true, false] {
                            for lim in [16384u16, 17, 9] {
                                let o = DEF.cs(cs).strict(strict).us(us).max(lim, 16384);
                                let mut a = zj::Decoder::new_with_options(o.zj());
                                let mut b = zj::Decoder::new_with_options(o.zj());
                                c.evals += 2;
                                c.note_input(&f.1);
                                let x = observe(&mut a, How::File, &f.1, &paths[i])?;
                                let y = observe(&mut b, How::Buffer, &f.1, &paths[i])?;
                                c.count("validated", 1);
                                if x != y {
                                    return Err(format!("{:?}: decode_file: {}; decode_buffer: {}", o, x.brief(), y.brief()));
                                }
                                // a second time on the same decoders, crossed
                                let x = observe(&mut a, How::Buffer, &f.1, &paths[i])?;
                                let z = observe(&mut b, How::File, &f.1, &paths[i])?;
                                if x != y || z != y {
                                    return Err(format!("{:?}: again, decode_buffer: {}; decode_file: {}; at first {}", o, x.brief(), z.brief(), y.brief()));
                                }
                            }
                        }
                    }
                }
                for how in [How::Buffer, How::File, How::Headers] {
                    let mut a = zj::Decoder::new();
                    let mut b = zj::Decoder::new_with_options(O::default());
                    let mut e = zj::Decoder::new_with_options(DEF.zj());
                    let x = observe(&mut a, how, &f.1, &paths[i])?;
                    let y = observe(&mut b, how, &f.1, &paths[i])?;
                    let z = observe(&mut e, how, &f.1, &paths[i])?;
                    c.count("validated", 2);
                    if x != y || (y != z && get(&O::default()) == DEF) {
                        return Err(format!("{:?}: Decoder::new(): {}; default options: {}; the defaults set one by one: {}", how, x.brief(), y.brief(), z.brief()));
                    }
                }
                // path types
                let want = guard(|| zj::Decoder::new().decode_buffer(&f.1).map_err(|_| ()))?;
                let p = &paths[i];
                let all = guard(|| {
                    vec![
                        zj::Decoder::new().decode_file(p.as_str()).map_err(|_| ()),
                        zj::Decoder::new().decode_file(p.clone()).map_err(|_| ()),
                        zj::Decoder::new().decode_file(std::path::PathBuf::from(p)).map_err(|_| ()),
                        zj::Decoder::new().decode_file(std::path::Path::new(p)).map_err(|_| ()),
                        zj::Decoder::new().decode_file(std::ffi::OsString::from(p)).map_err(|_| ()),
                    ]
                })?;
                names(c, &dir, i, &f.1)?;
                if all.iter().any(|x| *x != want) {
                    return Err("the path type changes the result of decode_file".into());
                }
                Ok(())
            },
        );
    }
    // every file size around buffer sizes
    for around in (9..=c.pick(25, 27)).map(|k| 1usize << k) {
        c.case(
            || format!("files of about {} bytes", around),
            |c| {
                let p = format!("{}/pad{}.jpg", dir, around);
                let by = if around > 1 << 20 { 1 } else { 3 };
                for len in around - by..=around + by {
                    // padded by a comment in front of the data, and behind the end
                    for front in [true, false] {
                        let mut d = bigf.clone();
                        if d.len() + 4 > len {
                            d.truncate(len);
                        } else if front {
                            let mut left = len - d.len();
                            let mut pad = vec![];
                            while left > 0 {
                                let k = left.min(60000);
                                let k = if left - k > 0 && left - k < 4 { k - 8 } else { k };
                                if k < 4 {
                                    break;
                                }
                                pad.extend([0xff, 0xfe, ((k - 2) >> 8) as u8, (k - 2) as u8]);
                                pad.extend(std::iter::repeat(b'x').take(k - 4));
                                left -= k;
                            }
                            d.splice(2..2, pad);
                        } else {
                            d.resize(len, 0);
                        }
                        std::fs::write(&p, &d).unwrap();
                        c.evals += 1;
                        c.note_input(&d);
                        let mut a = zj::Decoder::new_with_options(DEF.zj());
                        let mut b = zj::Decoder::new_with_options(DEF.zj());
                        let x = observe(&mut a, How::File, &d, &p)?;
                        let y = observe(&mut b, How::Buffer, &d, &p)?;
                        c.count("validated", 1);
                        if x != y {
                            return Err(format!("{} bytes, padding in front {}: decode_file: {}; decode_buffer: {}", len, front, x.brief(), y.brief()));
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // how a file ends
    for kind in 0..5usize {
        for form in 0..uni::FORMS {
            c.case(
                || format!("{} form {}: endings", kind_name(kind), form),
                |c| {
                    let p = format!("{}/end{}-{}.jpg", dir, kind, form);
                    let img = filled(make(kind, 17, 18), 3);
                    for l in 0..uni::LAYOUTS {
                        let d = file(&uni::layout(&uni::parts(&img, form, 0, l % 2).parts, l));
                        for cut in [0usize, 1, 2, 3, 4, 7] {
                            for tail in TAILS {
                                let mut f = d[..d.len() - cut].to_vec();
                                f.extend_from_slice(tail);
                                std::fs::write(&p, &f).unwrap();
                                for strict in [false, true] {
                                    let o = DEF.strict(strict);
                                    c.evals += 2;
                                    c.note_input(&f);
                                    let x = observe(&mut zj::Decoder::new_with_options(o.zj()), How::File, &f, &p)?;
                                    let y = observe(&mut zj::Decoder::new_with_options(o.zj()), How::Buffer, &f, &p)?;
                                    c.count("states", 1);
                                    c.count("validated", 1);
                                    if x != y {
                                        return Err(format!("layout {}, {} bytes removed, {:02x?} appended, strict {}: decode_file: {}; decode_buffer: {}", l, cut, tail, strict, x.brief(), y.brief()));
                                    }
                                }
                            }
                        }
                        // and how it begins
                        for lead in TAILS {
                            let mut f = lead.to_vec();
                            f.extend_from_slice(&d);
                            std::fs::write(&p, &f).unwrap();
                            c.evals += 2;
                            let x = observe(&mut zj::Decoder::new(), How::File, &f, &p)?;
                            let y = observe(&mut zj::Decoder::new(), How::Buffer, &f, &p)?;
                            c.count("validated", 1);
                            if x != y {
                                return Err(format!("layout {}, {:02x?} in front: decode_file: {}; decode_buffer: {}", l, lead, x.brief(), y.brief()));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // cut files
    c.case(
        || "decode_file of every prefix".into(),
        |c| {
            let p = format!("{}/cut.jpg", dir);
            for (name, d) in [&fs[1], &fs[5]] {
                for k in 0..=d.len() {
                    std::fs::write(&p, &d[..k]).unwrap();
                    let mut a = zj::Decoder::new_with_options(DEF.zj());
                    let mut b = zj::Decoder::new_with_options(DEF.zj());
                    c.evals += 1;
                    let x = observe(&mut a, How::File, &d[..k], &p)?;
                    let y = observe(&mut b, How::Buffer, &d[..k], &p)?;
                    c.count("validated", 1);
                    if x != y {
                        return Err(format!("{} cut at {}: decode_file: {}; decode_buffer: {}", name, k, x.brief(), y.brief()));
                    }
                }
            }
            Ok(())
        },
    );
    c.case(
        || "paths that cannot be read".into(),
        |c| {
            for p in [format!("{}/absent.jpg", dir), dir.clone(), String::new(), format!("{}/f0.jpg/x", dir), "a\0b".to_string(), format!("{}/{}", dir, "x".repeat(5000))] {
                for warm in [false, true] {
                    let mut d = zj::Decoder::new();
                    if warm {
                        let _ = observe(&mut d, How::Buffer, &fs[0].1, "")?;
                    }
                    let r = guard(|| d.decode_file(&p).is_ok())?;
                    c.evals += 1;
                    if r {
                        return Err(format!("decode_file({:?}) succeeds", p));
                    }
                    // and the decoder still works
                    let x = observe(&mut d, How::Buffer, &fs[0].1, "")?;
                    let y = observe(&mut zj::Decoder::new(), How::Buffer, &fs[0].1, "")?;
                    if x != y {
                        return Err(format!("after decode_file({:?}): {} instead of {}", p, x.brief(), y.brief()));
                    }
                }
            }
            Ok(())
        },
    );
    // non-vacuity: the observation tells thread counts and colourspaces apart
    c.case(
        || "observations are sensitive".into(),
        |_| {
            let f = &fs[3].1;
            let a = observe(&mut zj::Decoder::new_with_options(DEF.threads(2).zj()), How::Buffer, f, "")?;
            let b = observe(&mut zj::Decoder::new_with_options(DEF.threads(3).zj()), How::Buffer, f, "")?;
            if a.r.is_err() || a.r != b.r {
                return Err("two and three threads differ".into());
            }
            Ok(())
        },
    );
}

/// the same file under names that a program may mistake for something else
fn names(c: &mut Ctx, dir: &str, i: usize, data: &[u8]) -> Result<(), String> {
    use std::os::unix::ffi::OsStrExt;
    let want = guard(|| zj::Decoder::new().decode_buffer(data).map_err(|_| ()))?;
    let base = std::path::PathBuf::from(format!("{}/names{}", dir, i));
    std::fs::create_dir_all(base.join("sub")).map_err(|e| e.to_string())?;
    let long = [b'n'; 255];
    let list: [&[u8]; 22] = [
        b"a.jpg",
        b"a",
        b"a.JPG",
        b"a.png",
        b"a.jpg.gz",
        b".jpg",
        b"..jpg",
        b"a b.jpg",
        b" a.jpg",
        b"a.jpg ",
        b"a\n.jpg",
        b"a%41.jpg",
        b"~",
        b"-",
        b"*",
        b"$HOME.jpg",
        b"file:a.jpg",
        "\u{e9}\u{4e2d}.jpg".as_bytes(),
        b"\xff\xfe.jpg",
        b"caf\xe9.jpg",
        b"a\\b.jpg",
        &long,
    ];
    let mut paths: Vec<std::path::PathBuf> = vec![];
    for n in list {
        let p = base.join(std::ffi::OsStr::from_bytes(n));
        // a neighbour with a similar name and other contents
        let _ = std::fs::write(base.join(String::from_utf8_lossy(n).trim()), b"another file");
        std::fs::write(&p, data).map_err(|e| e.to_string())?;
        let r = guard(|| zj::Decoder::new().decode_file(&p).map_err(|_| ()))?;
        c.evals += 1;
        c.count("validated", 1);
        if r != want {
            return Err(format!("decode_file of a file called {:?} differs from decode_buffer", std::ffi::OsStr::from_bytes(n)));
        }
    }
    let real = base.join("a.jpg");
    std::fs::write(&real, data).map_err(|e| e.to_string())?;
    let lnk = |n: &str, to: &std::path::Path| {
        let p = base.join(n);
        let _ = std::fs::remove_file(&p);
        std::os::unix::fs::symlink(to, &p).map(|_| p).map_err(|e| e.to_string())
    };
    let l = lnk("link", &real)?;
    paths.push(lnk("link2", &l)?);
    paths.push(l);
    paths.push(lnk("rel.jpg", std::path::Path::new("a.jpg"))?);
    std::fs::hard_link(&real, base.join("hard")).or_else(|e| if e.kind() == std::io::ErrorKind::AlreadyExists { Ok(()) } else { Err(e) }).map_err(|e| e.to_string())?;
    paths.push(base.join("hard"));
    paths.push(base.join("sub/../a.jpg"));
    paths.push(base.join("./a.jpg"));
    paths.push(std::path::PathBuf::from(format!("{}//a.jpg", base.display())));
    // read-only
    let ro = base.join("ro.jpg");
    std::fs::write(&ro, data).map_err(|e| e.to_string())?;
    let mut pm = std::fs::metadata(&ro).map_err(|e| e.to_string())?.permissions();
    pm.set_readonly(true);
    std::fs::set_permissions(&ro, pm).map_err(|e| e.to_string())?;
    paths.push(ro);
    for p in &paths {
        let r = guard(|| zj::Decoder::new().decode_file(p).map_err(|_| ()))?;
        c.evals += 1;
        c.count("validated", 1);
        if r != want {
            return Err(format!("decode_file({}) differs from decode_buffer", p.display()));
        }
    }
    // another file under the same name, on the same decoder
    let other = baseline(&filled(Image::gray(12, 7), 21));
    let p = base.join("changes.jpg");
    let mut d = zj::Decoder::new();
    let wo = guard(|| zj::Decoder::new().decode_buffer(&other).map_err(|_| ()))?;
    for k in 0..6 {
        // longer and shorter, in place and replaced
        let (f, w): (&[u8], _) = if k % 2 == 0 { (data, &want) } else { (&other, &wo) };
        if k >= 3 {
            let _ = std::fs::remove_file(&p);
        }
        std::fs::write(&p, f).map_err(|e| e.to_string())?;
        let r = guard(|| d.decode_file(&p).map_err(|_| ()))?;
        c.evals += 1;
        c.count("validated", 1);
        if r != *w {
            return Err(format!("decode_file number {} of a path whose contents changed differs from decode_buffer of the contents", k));
        }
    }
    Ok(())
}

/// the common universe (uni.rs)
#[allow(deprecated)]
fn universe(c: &mut Ctx) {
    uni::images(c, |c, u, img| {
        let dir = format!("/tmp/verif-c17-{}-{}", std::process::id(), u.mix());
        let _ = std::fs::create_dir_all(&dir);
        let _s = Scratch(dir.clone());
        let path = format!("{}/f.jpg", dir);
        for form in 0..uni::FORMS {
            let (tabs, ri) = ((u.mix() + form) % uni::TABS, (u.mix() / 3 + form) % uni::RIS);
            let d = file(&uni::layout(&uni::parts(img, form, tabs, ri).parts, (u.mix() + form * 5) % uni::LAYOUTS));
            std::fs::write(&path, &d).map_err(|e| e.to_string())?;
            let m = u.mix() + form;
            let o = DEF.cs(CSS[m % 5]).us(m % 2 == 0).strict(m % 3 == 0).threads([4, 1, 3][m % 3]);
            c.note_input(&d);
            c.evals += 5;
            let mut seen = vec![];
            // options at construction and by the deprecated setters; from memory and from a file
            for by_set in [false, true] {
                for how in [How::Buffer, How::File] {
                    let mut dec = zj::Decoder::new_with_options(if by_set { DEF.us(o.us).strict(o.strict).zj() } else { o.zj() });
                    if by_set {
                        dec.set_output_colorspace(o.cs);
                        dec.set_limits(1 << 14, 1 << 14);
                        dec.set_num_threads(o.threads as usize).map_err(|e| format!("{:?}", e))?;
                    }
                    seen.push((by_set, how, observe(&mut dec, how, &d, &path)?));
                }
            }
            c.count("states", 4);
            c.count("transitions", 4);
            c.count("validated", 4);
            let want = &seen[0].2;
            if want.r.is_err() {
                return Err(format!("form {}: does not decode", form));
            }
            for (by_set, how, g) in &seen[1..] {
                if g.r != want.r || g.meta != want.meta || g.threads != want.threads || g.pools != want.pools {
                    return Err(format!("form {} tables {} interval {}: {:?}, options by deprecated setters {}: {} instead of {}", form, tabs, ri, how, by_set, g.brief(), want.brief()));
                }
            }
        }
        Ok(())
    });
}
