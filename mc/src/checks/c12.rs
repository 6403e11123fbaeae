//! Size and scan limits.
use super::common::*;
use super::*;
use crate::alloc as al;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C12",
        level: "model_checking",
        rule: "states: (dimension, limit) pairs: every width and every height 1..65535 with every limit within 1 of it and the extreme limits, as header read; boundary pairs as full decodes for every process and sampling; every (number of scans, scan limit) pair up to a bound and around the default; transitions: API calls; accept/reject must be exactly the comparison, rejected frames must not allocate, peak heap of successful decodes is bounded by constants times padded area and file size",
        assumptions: &["the accounting allocator sees every heap allocation"],
        passes: native_pass,
        run,
    }
}

/// a frame header and scan header without data
fn frame(kind: usize, w: usize, h: usize, prog: bool) -> Vec<u8> {
    // small image for the tables, the real dimensions patched in
    let img = make(kind, 8, 8);
    let scans = if prog { simple_script(&img) } else { vec![baseline_scan(&img, 0)] };
    let mut p = encode(&img, prog, &scans[..1], &t_std).parts;
    for x in p.iter_mut() {
        if x.marker == 0xc0 || x.marker == 0xc2 {
            x.body[1..5].copy_from_slice(&[(h >> 8) as u8, h as u8, (w >> 8) as u8, w as u8]);
        }
    }
    file(&p)
}

/// peak bytes while decoding, above what was there before
fn peak(c: &mut Ctx, o: &Opt, data: &[u8]) -> (Res, usize) {
    c.note_input(data);
    let base = al::reset_peak();
    let r = c.decode(o, data);
    let p = al::PEAK.load(std::sync::atomic::Ordering::Relaxed).saturating_sub(base);
    (r, p)
}

/// a legal progressive file with exactly n scans
fn with_scans(img: &Image, n: usize) -> Option<Vec<u8>> {
    let nc = img.comps.len();
    let all: Vec<usize> = (0..nc).collect();
    // one scan per coefficient and bit plane; take a prefix that keeps every plane legal
    let mut v: Vec<Scan> = vec![];
    'o: for al in (0..6u8).rev() {
        let ah = if al == 5 { 0 } else { al + 1 };
        v.push(Scan::new(&all, 0, 0, ah, al));
        if v.len() == n {
            break 'o;
        }
        for k in 1..64u8 {
            for ci in 0..nc {
                v.push(Scan::new(&[ci], k, k, ah, al));
                if v.len() == n {
                    break 'o;
                }
            }
        }
    }
    if v.len() < n {
        return None;
    }
    Some(progressive(img, &v))
}

fn run(c: &mut Ctx) {
    universe(c);
    // every dimension against the limits around it: header read
    let step = 257usize;
    for kind in [0usize, 1, 4] {
        for prog in [false, true] {
            for lo in (1..=65535usize).step_by(step) {
                c.case(
                    || format!("{} progressive={}: dimensions {}..{} against limits around them", kind_name(kind), prog, lo, lo + step - 1),
                    |c| {
                        let f0 = frame(kind, 1, 1, prog);
                        let at = f0.windows(2).position(|x| x[0] == 0xff && (x[1] == 0xc0 || x[1] == 0xc2)).unwrap() + 5;
                        for d in lo..(lo + step).min(65536) {
                            for width in [true, false] {
                                let mut f = f0.clone();
                                let p = if width { at + 2 } else { at };
                                f[p] = (d >> 8) as u8;
                                f[p + 1] = d as u8;
                                for l in [0, d / 2, d - 1, d, d + 1, 65535 - d.min(65534), 16384, 65534, 65535] {
                                    if l > 65535 {
                                        continue;
                                    }
                                    let o = if width { DEF.max(l as u16, 65535) } else { DEF.max(65535, l as u16) };
                                    c.evals += 1;
                                    c.count("states", 1);
                                    c.count("validated", 1);
                                    let mut dec = zj::Decoder::new_with_options(o.zj());
                                    let r = guard(|| dec.read_headers(&f).is_ok());
                                    c.note_input(&f);
                                    match r {
                                        Ok(ok) if ok == (d <= l) => {
                                            if ok && (if width { dec.width() } else { dec.height() }) as usize != d {
                                                return Err(format!("{} reported as {}x{}", d, dec.width(), dec.height()));
                                            }
                                        }
                                        r => return Err(format!("{} {} with limit {}: header read gives {:?}", if width { "width" } else { "height" }, d, l, r)),
                                    }
                                }
                            }
                        }
                        c.beat_now();
                        Ok(())
                    },
                );
            }
        }
    }
    // both limits at once, small: full decodes
    let m = c.pick(20usize, 40);
    for kind in 0..5 {
        for w in 1..=m {
            c.case(
                || format!("{} width {}: decodes with limits around each size up to {}", kind_name(kind), w, m),
                |c| {
                    for h in 1..=m {
                        let img = filled(make(kind, w, h), 1);
                        let b = baseline(&img);
                        let p = progressive(&img, &simple_script(&img));
                        for data in [&b, &p] {
                            let want = c.decode(&DEF, data);
                            for (lw, lh) in [(w, h), (w - 1, h), (w, h - 1), (w + 1, h), (w, h + 1), (w - 1, h - 1), (65535, h), (w, 65535), (h, w), (65535, h - 1), (w - 1, 65535)] {
                                let r = c.decode(&DEF.max(lw as u16, lh as u16), data);
                                c.count("states", 1);
                                c.count("validated", 1);
                                let fits = w <= lw && h <= lh;
                                if fits && !(r.same(&want) && want.ok().is_some()) {
                                    return Err(format!("{}x{} with limits {}x{}: {} instead of {}", w, h, lw, lh, r.brief(), want.brief()));
                                }
                                if !fits && !r.is_err() {
                                    return Err(format!("{}x{} with limits {}x{}: {}", w, h, lw, lh, r.brief()));
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // large boundary sizes: decode; rejected ones must not allocate
    let lims = [1u32, 255, 256, 1000, 16383, 16384, 16385, 32767, 32768, 65534, 65535];
    for kind in 0..5 {
        for prog in [false, true] {
            for &l in &lims {
                c.case(
                    || format!("{} progressive={}: frames beyond limit {} allocate nothing", kind_name(kind), prog, l),
                    |c| {
                        for other in [1usize, 8, 1000, 16384, 65535] {
                            for d in [l as usize + 1, l as usize * 2, 40000, 65535] {
                                if d > 65535 || d <= l as usize {
                                    continue;
                                }
                                for width in [true, false] {
                                    let (w, h) = if width { (d, other) } else { (other, d) };
                                    let o = if width { DEF.max(l as u16, 65535) } else { DEF.max(65535, l as u16) };
                                    let f = frame(kind, w, h, prog);
                                    let (r, p) = peak(c, &o, &f);
                                    c.count("states", 1);
                                    c.count("validated", 1);
                                    c.max("max_bytes_for_rejected_frame", p as u64);
                                    if !r.is_err() {
                                        return Err(format!("{}x{} with limit {}: {}", w, h, l, r.brief()));
                                    }
                                    if p > 200_000 + 8 * f.len() {
                                        return Err(format!("{}x{} with limit {} is rejected, but only after allocating {} bytes", w, h, l, p));
                                    }
                                }
                            }
                        }
                        Ok(())
                    },
                );
                c.case(
                    || format!("{} progressive={}: images exactly at limit {}", kind_name(kind), prog, l),
                    |c| {
                        for width in [true, false] {
                            for other in [1usize, 17] {
                                for dd in [-1i64, 0] {
                                    let d = (l as i64 + dd).max(1) as usize;
                                    let (w, h) = if width { (d, other) } else { (other, d) };
                                    let mut img = make(kind, w, h);
                                    // cheap content: DC only
                                    let mut k = 0i16;
                                    for cp in img.comps.iter_mut() {
                                        for b in cp.blocks.iter_mut() {
                                            b[0] = (k % 64) - 32;
                                            k = (k + 1) % 64;
                                        }
                                    }
                                    let f = if prog { progressive(&img, &[Scan::new(&(0..img.comps.len()).collect::<Vec<_>>(), 0, 0, 0, 0)]) } else { baseline(&img) };
                                    let o = if width { DEF.max(l as u16, 20) } else { DEF.max(20, l as u16) };
                                    let (r, p) = peak(c, &o, &f);
                                    c.count("states", 1);
                                    c.count("validated", 1);
                                    let v = r.want(&format!("{}x{} with limit {}", w, h, l))?;
                                    let ch = if kind == 0 { 1 } else { 3 };
                                    if v.len() != w * h * ch {
                                        return Err(format!("{}x{} gives {} bytes", w, h, v.len()));
                                    }
                                    mem(c, &img, &f, p, prog)?;
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
            // the default limits
            c.case(
                || format!("{} progressive={}: default limits", kind_name(kind), prog),
                |c| {
                    for (w, h, ok) in [(16384usize, 1usize, true), (1, 16384, true), (16385, 1, false), (1, 16385, false), (16383, 3, true), (3, 16383, true)] {
                        let img = make(kind, w, h);
                        let f = if prog { progressive(&img, &simple_script(&img)) } else { baseline(&img) };
                        c.evals += 1;
                        c.note_input(&f);
                        c.count("states", 1);
                        c.count("validated", 1);
                        let mut d = zj::Decoder::new();
                        let r = guard(|| d.decode_buffer(&f).is_ok())?;
                        if r != ok {
                            return Err(format!("{}x{} with the default options: success={}", w, h, r));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // peak memory of successful decodes
    let mm = c.pick(64usize, 130);
    for kind in 0..5 {
        for w in (1..=mm).step_by(if c.quick() { 3 } else { 1 }) {
            c.case(
                || format!("{} width {}: peak memory for heights up to {}", kind_name(kind), w, mm),
                |c| {
                    for h in (1..=mm).step_by(7) {
                        let img = filled(make(kind, w, h), 2);
                        for prog in [false, true] {
                            let f = if prog { progressive(&img, &full_script(&img)) } else { baseline(&img) };
                            for cs in CSS {
                                for pad in [0usize, 100_000] {
                                    let mut g = f.clone();
                                    g.extend(vec![0u8; pad]);
                                    let (r, p) = peak(c, &DEF.cs(cs), &g);
                                    c.count("states", 1);
                                    r.want("memory")?;
                                    mem(c, &img, &g, p, prog)?;
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    for kind in 0..5 {
        for (w, h) in [(500usize, 500usize), (2000, 16), (16, 2000), (1024, 1024), (3000, 100), (1, 5000), (5000, 1)] {
            c.case(
                || format!("{} {}x{}: peak memory", kind_name(kind), w, h),
                |c| {
                    let img = filled(make(kind, w, h), 2);
                    for prog in [false, true] {
                        let f = if prog { progressive(&img, &simple_script(&img)) } else { baseline(&img) };
                        for cs in CSS {
                            let (r, p) = peak(c, &DEF.cs(cs), &f);
                            c.count("states", 1);
                            r.want("memory")?;
                            mem(c, &img, &f, p, prog)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // scans
    let mut counts: Vec<usize> = (1..=c.pick(24, 70)).collect();
    counts.extend([63, 64, 65, 66, 100, 127, 128, 129, 192, 254, 255, 256, 257, 258, 300]);
    for kind in [0usize, 1, 4] {
        for &n in &counts {
            c.case(
                || format!("{}: {} scans against every limit", kind_name(kind), n),
                |c| {
                    let img = filled(make(kind, 9, 8), 4);
                    let f = match with_scans(&img, n) {
                        Some(f) => f,
                        None => return Ok(()),
                    };
                    let want = c.decode(&DEF.scans(100_000), &f);
                    if want.ok().is_none() {
                        return Err(format!("{} scans with a limit of 100000: {}", n, want.brief()));
                    }
                    let mut ls: Vec<usize> = (1..=26).collect();
                    ls.extend([n - 1, n, n + 1, n + 2, 63, 64, 65, 127, 128, 255, 256, 257, 1 << 16, 1 << 32, usize::MAX - 1, usize::MAX]);
                    for l in ls {
                        if l == 0 {
                            continue;
                        }
                        let r = c.decode(&DEF.scans(l), &f);
                        c.count("states", 1);
                        c.count("validated", 1);
                        if n <= l && !r.same(&want) {
                            return Err(format!("{} scans with limit {}: {} instead of {}", n, l, r.brief(), want.brief()));
                        }
                        if n > l && !r.is_err() {
                            return Err(format!("{} scans with limit {}: {}", n, l, r.brief()));
                        }
                    }
                    // default options: 64
                    let mut d = zj::Decoder::new();
                    let r = guard(|| d.decode_buffer(&f).is_ok())?;
                    if r != (n <= 64) {
                        return Err(format!("{} scans with the default options: success={}", n, r));
                    }
                    Ok(())
                },
            );
        }
        c.case(
            || format!("{}: baseline with scan limits", kind_name(kind)),
            |c| {
                let img = filled(make(kind, 19, 18), 4);
                let f = baseline(&img);
                let want = c.decode(&DEF, &f);
                for l in [1, 2, 64, usize::MAX] {
                    let r = c.decode(&DEF.scans(l), &f);
                    if !r.same(&want) || want.ok().is_none() {
                        return Err(format!("baseline with scan limit {}: {}", l, r.brief()));
                    }
                }
                Ok(())
            },
        );
    }
}

fn mem(c: &mut Ctx, img: &Image, f: &[u8], p: usize, prog: bool) -> Result<(), String> {
    let area = img.mcux * img.mcuy * img.hmax * img.vmax * 64;
    let fixed = 200_000;
    let k = (p.saturating_sub(fixed + 4 * f.len())) as f64 / area as f64;
    c.max(if prog { "max_bytes_per_pixel_x1000_progressive" } else { "max_bytes_per_pixel_x1000_baseline" }, (k * 1000.0) as u64);
    // row buffers are proportional to the width: at least 8 rows of MCUs count
    let rows = img.mcux * img.hmax * 8 * 16 * 8;
    let bound = fixed + 4 * f.len() + 64 * area + 16 * rows;
    c.max("max_percent_of_memory_bound", (p * 100 / bound) as u64);
    if p > bound {
        return Err(format!("decoding {}x{} ({} bytes) needs {} bytes, more than {}", img.w, img.h, f.len(), p, bound));
    }
    Ok(())
}

/// the common universe (uni.rs)
fn universe(c: &mut Ctx) {
    uni::images(c, |c, u, img| {
        uni::files(c, u, img, 0..uni::FORMS, |c, form, tabs, ri, e| {
            let d = file(&e.parts);
            let m = u.mix() + form + tabs * 3 + ri * 5;
            let o = DEF.cs(CSS[m % 5]).us(m % 2 == 0).strict(m % 3 == 0);
            let scans = e.parts.iter().filter(|p| p.marker == 0xda).count();
            let (want, p) = peak(c, &o, &d);
            mem(c, img, &d, p, form > 0)?;
            let exact = o.max(u.w as u16, u.h as u16).scans(scans);
            let r = c.decode(&exact, &d);
            c.count("states", 4);
            c.count("transitions", 4);
            c.count("validated", 4);
            if !r.same(&want) || want.ok().is_none() {
                return Err(format!("with limits of exactly {}x{} and {} scans: {} instead of {}", u.w, u.h, scans, r.brief(), want.brief()));
            }
            let mut under = vec![(exact.max(u.w as u16 - 1, 65535), "width"), (exact.max(65535, u.h as u16 - 1), "height")];
            if form > 0 && scans > 1 {
                under.push((exact.scans(scans - 1), "scans"));
            }
            for (o, what) in under {
                if c.decode(&o, &d).ok().is_some() {
                    return Err(format!("decodes although it has one more {} than the limit", what));
                }
            }
            Ok(())
        })
    });
}
