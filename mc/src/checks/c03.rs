//! Baseline reconstruction for every size and sampling.
use super::common::*;
use super::*;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C03",
        level: "model_checking",
        rule: "states: every (width, height, sampling, content) of the stated grid, encoded by the reference encoder; transitions: decodes of each into YCbCr, RGB, RGBA, RGBX and grayscale with platform code allowed and forbidden; also images of up to 2^21 MCUs whose blocks have one of 16 levels each; every pixel compared with the exact model",
        assumptions: &["reference encoder/decoder in mc/src/jpeg.rs", "the full size grid uses one content pattern per size; seven content families, table families, table and quantiser assignments, scan component orders and restart intervals are enumerated on a subset of sizes"],
        passes: simd_passes,
        run,
    }
}

fn one(c: &mut Ctx, rf: &Ref, kind: usize, w: usize, h: usize, seed: u64, big: bool) {
    c.case(
        || format!("{} {}x{} content {}", kind_name(kind), w, h, seed),
        |c| {
            let mut img = make(kind, w, h);
            img.qt[0] = Some(qpos(seed as u8));
            if kind > 0 {
                img.qt[1] = Some(qpos(seed as u8 + 3));
            }
            fill(&mut img, seed * 1000003 + (w * 131 + h) as u64);
            let data = baseline(&img);
            for &us in us_axis(c) {
                let o = if big { DEF.us(us).max(65535, 65535) } else { DEF.us(us) };
                check_image(c, rf, &img, &data, &o)?;
            }
            Ok(())
        },
    );
}

/// content families: 0 textured, 1 flat, 2 DC only, 3 every coefficient set, 4 full-range DC swings,
/// 5 one low-frequency term per block, 6 only the highest frequencies
fn content(img: &mut Image, fam: usize, seed: u64) {
    fill(img, seed);
    let mut r = Rng(seed ^ 0x77);
    for c in img.comps.iter_mut() {
        let q = img.qt[c.tq as usize].unwrap();
        for (i, b) in c.blocks.iter_mut().enumerate() {
            match fam {
                1 => {
                    *b = [0; 64];
                    b[0] = 200 / q[0] as i16;
                }
                2 => b[1..].fill(0),
                3 => {
                    for k in 1..64 {
                        b[k] = (r.range(1, 20) / q[k] as i64).max(1) as i16 * if r.below(2) == 0 { 1 } else { -1 };
                    }
                }
                4 => {
                    *b = [0; 64];
                    b[0] = if (i + i / 3) % 2 == 0 { 1023 } else { -1024 } / q[0] as i16;
                }
                5 => {
                    b[1..].fill(0);
                    let k = 1 + i % 5;
                    b[k] = 300 / q[k] as i16 * if i % 2 == 0 { 1 } else { -1 };
                }
                6 => {
                    b[1..].fill(0);
                    let k = 63 - i % 4;
                    b[k] = 100 / q[k] as i16;
                }
                _ => {}
            }
        }
    }
}

/// the remaining degrees of freedom of a well-formed baseline file
fn vary(c: &mut Ctx, rf: &Ref, kind: usize, w: usize, h: usize, fam: usize, tq: usize, tabs: usize, ri: usize, order: usize) {
    const TQ: [[u8; 3]; 6] = [[0, 1, 1], [0, 0, 0], [0, 1, 2], [3, 2, 1], [1, 0, 0], [2, 3, 2]];
    const TD: [[(u8, u8); 3]; 5] =
        [[(0, 0), (1, 1), (1, 1)], [(0, 0), (0, 0), (0, 0)], [(1, 0), (0, 1), (1, 1)], [(0, 0), (1, 1), (2, 2)], [(3, 2), (2, 3), (1, 0)]];
    c.case(
        || format!("{} {}x{} content family {} tq {} tables {} ri {} order {}", kind_name(kind), w, h, fam, tq, tabs, ri, order),
        |c| {
            let mut img = make(kind, w, h);
            let n = img.comps.len();
            img.qt = [None; 4];
            for ci in 0..n {
                let t = TQ[tq][ci];
                img.comps[ci].tq = t;
                img.qt[t as usize] = Some(qpos(t * 5 + 1));
            }
            content(&mut img, fam, (fam * 77 + w * 131 + h) as u64);
            let mut sc = baseline_scan(&img, ri);
            for (i, s) in sc.comps.iter_mut().enumerate() {
                (s.td, s.ta) = TD[tabs % 5][i];
            }
            if n == 3 {
                const ORD: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
                sc.comps = ORD[order].iter().map(|&i| sc.comps[i].clone()).collect();
            }
            let tf: TableFn = [&t_opt as TableFn, &t_flat, &t_skew, &t_long][tabs / 5];
            let data = file(&encode(&img, false, &[sc], tf).parts);
            for &us in us_axis(c) {
                check_image(c, rf, &img, &data, &DEF.us(us))?;
            }
            Ok(())
        },
    );
}

/// the byte offset of the two-byte height in the frame header
fn sof_dims(d: &[u8]) -> usize {
    let mut i = 2;
    while d[i + 1] != 0xc0 && d[i + 1] != 0xc2 {
        i += 2 + ((d[i + 2] as usize) << 8 | d[i + 3] as usize);
    }
    i + 5
}

/// Every width (or height) up to a bound. The image data of one MCU row (or column) of the largest
/// image is also that of every narrower (or lower) one, followed by data that is not needed.
fn sweep(c: &mut Ctx, rf: &Ref, vals: &[usize]) {
    let n = *vals.last().unwrap();
    for kind in 0..5 {
        for wide in [true, false] {
            let mut big: Option<(Vec<u8>, usize)> = None;
            let mut refs: Vec<Option<Vec<u8>>> = vec![None; 5];
            for part in vals.chunks(128) {
                c.case(
                    || format!("{} every listed {} from {} to {}", kind_name(kind), if wide { "width" } else { "height" }, part[0], part.last().unwrap()),
                    |c| {
                        if big.is_none() {
                            let (w, h) = if wide { (n, 3) } else { (5, n) };
                            let mut img = make(kind, w, h);
                            content(&mut img, 5, 99 + kind as u64);
                            let d = baseline(&img);
                            check_image(c, rf, &img, &d, &DEF.max(65535, 65535))?;
                            let at = sof_dims(&d);
                            big = Some((d, at));
                        }
                        let (d, at) = big.as_mut().unwrap();
                        for &v in part {
                            for (us, ci) in [(true, 0usize), (v % 2 == 0, 1 + v % 4)] {
                                let cs = CSS[ci];
                                let o = DEF.cs(cs).us(us).max(65535, 65535);
                                let at = *at + if wide { 2 } else { 0 };
                                d[at..at + 2].copy_from_slice(&(n as u16).to_be_bytes());
                                if refs[ci].is_none() {
                                    refs[ci] = Some(c.decode(&o, d).want("largest")?);
                                }
                                d[at..at + 2].copy_from_slice(&(v as u16).to_be_bytes());
                                let r = c.decode(&o, d).want(&format!("{} {:?}", v, cs))?;
                                c.count("validated", 1);
                                let chn = if kind == 0 { 1 } else { ch(cs) };
                                let want = refs[ci].as_ref().unwrap();
                                let (w, h) = if wide { (v, 3) } else { (5, v) };
                                if r.len() != w * h * chn {
                                    return Err(format!("{}x{} {:?}: {} bytes", w, h, cs, r.len()));
                                }
                                let stride = if wide { n } else { 5 };
                                // interpolation has no neighbour at the right end
                                let skip = usize::from(wide && kind % 2 == 0 && kind > 0 && v % 16 == 0);
                                for y in 0..h {
                                    let a = &r[y * w * chn..(y * w + w - skip) * chn];
                                    let b = &want[y * stride * chn..(y * stride + w - skip) * chn];
                                    if a != b && !(cs == Cs::RGBX && a.chunks_exact(4).zip(b.chunks_exact(4)).all(|(p, q)| p[..3] == q[..3])) {
                                        let x = (0..a.len()).find(|&i| a[i] != b[i]).unwrap();
                                        return Err(format!("{}x{} {:?} unsafe={}: x={} y={} is {} but {} in the larger image", w, h, cs, us, x / chn, y, a[x], b[x]));
                                    }
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

fn run(c: &mut Ctx) {
    universe(c);
    let rf = Ref::new();
    if c.pass.cpu == Cpu::Native {
        let mut l = vec![(0, 16384, 16384, 0), (0, 65535, 2055, 0), (1, 8192, 4096, 0), (2, 8200, 4096, 0), (3, 8192, 4100, 0), (4, 8190, 8200, 0)];
        if !c.quick() {
            l.extend([(0, 65528, 32768, 0), (0, 9, 65535, 0), (1, 16384, 16384, 0), (2, 32768, 16384, 0), (3, 16384, 32768, 0), (4, 32768, 32768, 0)]);
        }
        mosaics(c, false, &l);
        let v: Vec<usize> = if c.quick() {
            (1..=4096).chain((4097..=16384).filter(|v| (v + 1) % 512 < 3 || v % 1024 == 7 || v % 1024 == 8 || v % 1024 == 1016)).collect()
        } else {
            (1..=65535).collect()
        };
        sweep(c, &rf, &v);
    }
    // other content, tables, restart intervals, on sizes of every residue class
    let sizes: Vec<(usize, usize)> = c.pick(
        vec![(1, 1), (8, 8), (13, 11), (16, 16), (17, 33), (40, 24), (41, 50)],
        (1..=18).map(|i| (i * 7 % 36 + 1, i * 11 % 40 + 1)).chain([(16, 16), (17, 33), (48, 32), (64, 64), (100, 90)]).collect(),
    );
    for kind in 0..5 {
        for &(w, h) in &sizes {
            for fam in 0..7 {
                for ri in [0, 1, 2, 3, 5, 8] {
                    vary(c, &rf, kind, w, h, fam, 0, 0, ri, 0);
                }
                for tabs in 0..20 {
                    vary(c, &rf, kind, w, h, fam, 0, tabs, 0, 0);
                }
                if kind > 0 {
                    for order in 1..6 {
                        for ri in [0, 2] {
                            vary(c, &rf, kind, w, h, fam, 2, 3, ri, order);
                        }
                    }
                }
                for tq in 0..6 {
                    for t in 0..4 {
                        vary(c, &rf, kind, w, h, fam, tq, t, 0, 0);
                    }
                }
            }
        }
    }
    let n = c.pick(40, 104);
    for kind in 0..5 {
        for h in 1..=n {
            for w in 1..=n {
                one(c, &rf, kind, w, h, 1, false);
            }
        }
    }
    // long thin images: one side from a boundary-rich set
    let long: Vec<usize> = if c.quick() {
        vec![63, 64, 65, 79, 80, 81, 127, 128, 129, 143, 144, 145, 255, 256, 257, 1000, 1024, 1025, 2047]
    } else {
        (60..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096]).collect()
    };
    for kind in 0..5 {
        for &l in &long {
            for s in c.pick(vec![1, 8, 9, 17, 33], vec![1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 34]) {
                one(c, &rf, kind, l, s, 2, false);
                one(c, &rf, kind, s, l, 2, false);
            }
        }
        let huge: Vec<usize> = c.pick(vec![16384, 65520, 65521, 65528, 65529, 65535], (65520..=65535).chain([16384, 32768, 32767, 40000]).collect());
        for &l in &huge {
            one(c, &rf, kind, l, 1, 3, true);
            one(c, &rf, kind, 1, l, 3, true);
            if l > 60000 {
                one(c, &rf, kind, l, 9, 3, true);
                one(c, &rf, kind, 17, l, 3, true);
            }
        }
    }
}

/// the common universe (uni.rs)
fn universe(c: &mut Ctx) {
    let rf = Ref::new();
    uni::images(c, |c, u, img| {
        let pl = planes(&rf, img);
        uni::files(c, u, img, 0..1, |c, _, tabs, ri, e| {
            let d = file(&e.parts);
            for us in [true, false] {
                let o = DEF.us(us).strict((tabs + ri) % 2 == 0).threads(1 + (tabs * 3 + ri) as u32);
                let r = c.decode(&o.cs(Cs::YCbCr), &d).want("decode")?;
                c.count("states", 1);
                c.count("transitions", 1);
                c.count("validated", 1);
                compare_planes(img, &pl, &r).map_err(|e| format!("{:?}: {}", o, e))?;
                if img.comps.len() == 3 {
                    check_colours(c, img.w, &d, &o, &r)?;
                }
            }
            Ok(())
        })
    });
}
