//! Progressive decoding equals sequential decoding of the same coefficients.
use super::common::*;
use super::*;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C04",
        level: "model_checking",
        rule: "states: (image, scan script) pairs of the stated families: sizes x samplings x canonical scripts; every ordered partition of DC components x point transforms; every AC band; every order of a script's AC scans; every coefficient pattern over a small alphabet with successive approximation and end-of-band run limits; images of up to 2^21 MCUs against the levels they were made of; transitions: decodes; the progressive decode must equal the sequential decode byte for byte",
        assumptions: &["reference encoder in mc/src/jpeg.rs (its sequential form is validated against the exact model by C03)"],
        passes: native_pass,
        run,
    }
}

/// progressive with `script` against sequential, in one colourspace
fn same(c: &mut Ctx, o: &Opt, img: &Image, base: &[u8], script: &[Scan], tf: TableFn) -> Result<(), String> {
    let data = file(&encode(img, true, script, tf).parts);
    let r = c.decode(o, &data).want("progressive")?;
    c.count("validated", 1);
    if r != base {
        let chn = base.len() / (img.w * img.h);
        return Err(format!("progressive and sequential differ: {}", first_diff(&r, base, img.w, chn)));
    }
    Ok(())
}
fn base(c: &mut Ctx, o: &Opt, img: &Image) -> Result<Vec<u8>, String> {
    let b = baseline(img);
    c.decode(o, &b).want("sequential")
}

fn separate_dc(img: &Image) -> Vec<Scan> {
    let n = img.comps.len();
    let mut v = vec![];
    for ci in (0..n).rev() {
        v.push(Scan::new(&[ci], 0, 0, 0, 2));
    }
    for ci in 0..n {
        v.push(Scan::new(&[ci], 1, 20, 0, 0));
        v.push(Scan::new(&[ci], 0, 0, 2, 1));
        v.push(Scan::new(&[ci], 21, 63, 0, 0));
    }
    for ci in 0..n {
        v.push(Scan::new(&[ci], 0, 0, 1, 0));
    }
    v
}

/// ordered set partitions of 0..n
fn partitions(n: usize) -> Vec<Vec<Vec<usize>>> {
    fn rec(rest: Vec<usize>, acc: &mut Vec<Vec<usize>>, out: &mut Vec<Vec<Vec<usize>>>) {
        if rest.is_empty() {
            out.push(acc.clone());
            return;
        }
        for m in 1..1usize << rest.len() {
            let s: Vec<usize> = (0..rest.len()).filter(|i| m >> i & 1 == 1).map(|i| rest[i]).collect();
            let r: Vec<usize> = rest.iter().copied().filter(|x| !s.contains(x)).collect();
            acc.push(s);
            rec(r, acc, out);
            acc.pop();
        }
    }
    let mut out = vec![];
    rec((0..n).collect(), &mut vec![], &mut out);
    out
}
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
/// a gray image holding the given blocks, `per_row` blocks wide (the rest zero)
pub fn blocks_image(blocks: &[[i16; 64]], per_row: usize, q: [u8; 64]) -> Image {
    let bw = per_row.min(blocks.len()).max(1);
    let bh = cdiv(blocks.len(), bw).max(1);
    let mut img = Image::gray(bw * 8, bh * 8).quant(0, q);
    for (i, b) in blocks.iter().enumerate() {
        img.comps[0].blocks[i] = *b;
    }
    img
}

fn run(c: &mut Ctx) {
    universe(c);
    let mut l = vec![(0, 16384, 8192, 0), (1, 4096, 4096, 0), (2, 8200, 4096, 0), (3, 8192, 4100, 0), (4, 8190, 8200, 0)];
    if !c.quick() {
        l.extend([(0, 32768, 16384, 0), (1, 8192, 8200, 0), (2, 16384, 8192, 0), (3, 8192, 16384, 0), (4, 16384, 16384, 0)]);
    }
    mosaics(c, true, &l);
    // A: sizes x samplings x scripts
    let n = c.pick(26, 68);
    for kind in 0..5 {
        for h in 1..=n {
            for w in 1..=n {
                c.case(
                    || format!("A: {} {}x{}", kind_name(kind), w, h),
                    |c| {
                        let img = filled(make(kind, w, h), 7 + (w * 131 + h) as u64);
                        let o = if (w + h) & 1 == 0 { DEF } else { DEF.cs(Cs::YCbCr) };
                        let b = base(c, &o, &img)?;
                        for (s, name) in [(simple_script(&img), "simple"), (full_script(&img), "full"), (separate_dc(&img), "separate DC")] {
                            same(c, &o, &img, &b, &s, &t_opt).map_err(|e| format!("{} script: {}", name, e))?;
                        }
                        Ok(())
                    },
                );
            }
        }
        for &(w, h) in &[(16384, 1), (1, 16384), (65535, 9), (17, 65535), (65529, 1), (1, 65521), (2047, 33), (1025, 1025)] {
            c.case(
                || format!("A: {} {}x{}", kind_name(kind), w, h),
                |c| {
                    let img = filled(make(kind, w, h), 7 + (w * 131 + h) as u64);
                    let o = DEF.max(65535, 65535);
                    let b = base(c, &o, &img)?;
                    same(c, &o, &img, &b, &full_script(&img), &t_opt)
                },
            );
        }
    }
    // every output colourspace and unsafe setting, and a baseline image compared exactly
    for kind in 0..5 {
        for cs in CSS {
            for us in [true, false] {
                c.case(
                    || format!("A2: {} {:?} unsafe={}", kind_name(kind), cs, us),
                    |c| {
                        let img = filled(make(kind, 37, 41), 99);
                        let o = DEF.cs(cs).us(us);
                        let b = base(c, &o, &img)?;
                        same(c, &o, &img, &b, &full_script(&img), &t_opt)
                    },
                );
            }
        }
    }
    // B: DC arrangement
    let parts = partitions(3);
    for kind in 1..5 {
        for (i, p) in parts.iter().enumerate() {
            c.case(
                || format!("B: {} DC first scans {:?} x all refinement partitions", kind_name(kind), p),
                |c| {
                    let img = filled(make(kind, 33, 19), 31 + i as u64);
                    let o = DEF.cs(Cs::YCbCr);
                    let b = base(c, &o, &img)?;
                    for q in partitions(3) {
                        let mut s: Vec<Scan> = p.iter().map(|x| Scan::new(x, 0, 0, 0, 1)).collect();
                        s.extend(q.iter().map(|x| Scan::new(x, 0, 0, 1, 0)));
                        s.extend((0..3).map(|ci| Scan::new(&[ci], 1, 63, 0, 0)));
                        same(c, &o, &img, &b, &s, &t_opt).map_err(|e| format!("refined as {:?}: {}", q, e))?;
                    }
                    Ok(())
                },
            );
        }
    }
    for kind in 0..5 {
        for al in 0..=13u8 {
            c.case(
                || format!("B: {} DC point transform {}", kind_name(kind), al),
                |c| {
                    let mut img = filled(make(kind, 35, 20), 77);
                    img.qt[0] = Some([1; 64]);
                    if kind > 0 {
                        img.qt[1] = Some([1; 64]);
                    }
                    fill(&mut img, 5);
                    let o = DEF.cs(Cs::YCbCr);
                    let b = base(c, &o, &img)?;
                    let all: Vec<usize> = (0..img.comps.len()).collect();
                    let mut s = vec![Scan::new(&all, 0, 0, 0, al)];
                    for a in (0..al).rev() {
                        s.push(Scan::new(&all, 0, 0, a + 1, a));
                    }
                    s.extend(all.iter().map(|&ci| Scan::new(&[ci], 1, 63, 0, 0)));
                    same(c, &o, &img, &b, &s, &t_opt)
                },
            );
        }
    }
    // C: every AC band
    for ss in 1..=63u8 {
        for se in ss..=63u8 {
            c.case(
                || format!("C: AC band {}..{}", ss, se),
                |c| {
                    let img = filled(make((ss as usize + se as usize) % 5, 23, 18), ss as u64 * 64 + se as u64);
                    let o = DEF.cs(Cs::YCbCr);
                    let b = base(c, &o, &img)?;
                    let n = img.comps.len();
                    for variant in 0..c.pick(2, 4) {
                        let mut bands = vec![(ss, se)];
                        if se < 63 {
                            bands.push((se + 1, 63));
                        }
                        if ss > 1 {
                            bands.push((1, ss - 1));
                        }
                        if variant & 1 == 1 {
                            bands.reverse();
                        }
                        let mut s = vec![Scan::new(&(0..n).collect::<Vec<_>>(), 0, 0, 0, 0)];
                        let al = [0, 1, 2, 3][variant];
                        for ci in 0..n {
                            for &(a, z) in &bands {
                                s.push(Scan::new(&[ci], a, z, 0, al).eob([0x7fff, 3, 1, 2][variant]));
                            }
                        }
                        for x in (0..al).rev() {
                            for ci in 0..n {
                                for &(a, z) in &bands {
                                    s.push(Scan::new(&[ci], a, z, x + 1, x).eob([0x7fff, 3, 1, 2][variant]));
                                }
                            }
                        }
                        same(c, &o, &img, &b, &s, &t_opt).map_err(|e| format!("variant {}: {}", variant, e))?;
                    }
                    Ok(())
                },
            );
        }
    }
    // D: every order of the AC scans of a colour image
    for (i, p) in permutations(6).iter().enumerate() {
        c.case(
            || format!("D: AC scan order {:?}", p),
            |c| {
                let img = filled(make(1 + i % 4, 19, 17), 3 + (i % 16) as u64);
                let o = DEF.cs(Cs::YCbCr);
                let b = base(c, &o, &img)?;
                let ac: Vec<Scan> = (0..3).flat_map(|ci| [Scan::new(&[ci], 1, 5, 0, 0), Scan::new(&[ci], 6, 63, 0, 0)]).collect();
                let mut s = vec![Scan::new(&[0, 1, 2], 0, 0, 0, 0)];
                s.extend(p.iter().map(|&k| ac[k].clone()));
                same(c, &o, &img, &b, &s, &t_opt)
            },
        );
    }
    // E: coefficient patterns, successive approximation and end-of-band runs
    // E1: all assignments of a small alphabet to a band of five
    let vals: [i16; 7] = [0, 1, -1, 2, -2, 3, -3];
    for &(ss, al, eob) in &[(1u8, 1u8, 0x7fffu32), (1, 1, 1), (59, 1, 0x7fff), (59, 2, 2), (1, 2, 3), (1, 2, 0x7fff), (30, 1, 1), (30, 0, 0x7fff), (59, 0, 1)] {
        for first in 0..7usize {
            c.case(
                || format!("E1: band {}..{} Al={} EOB limit {} leading value {}", ss, ss + 4, al, eob, vals[first]),
                |c| {
                    let mut bl = vec![];
                    for i in 0..7usize.pow(4) {
                        let mut b = [0i16; 64];
                        b[0] = (i % 90) as i16 - 45;
                        let mut x = i;
                        b[ss as usize] = vals[first];
                        for j in 1..5 {
                            b[ss as usize + j] = vals[x % 7];
                            x /= 7;
                        }
                        bl.push(b);
                    }
                    let img = blocks_image(&bl, 49, [40; 64]);
                    let b = base(c, &DEF, &img)?;
                    let mut s = vec![Scan::new(&[0], 0, 0, 0, 0), Scan::new(&[0], ss, ss + 4, 0, al).eob(eob)];
                    for x in (0..al).rev() {
                        s.push(Scan::new(&[0], ss, ss + 4, x + 1, x).eob(eob));
                    }
                    same(c, &DEF, &img, &b, &s, &t_opt)?;
                    // the same inside the full band
                    for s in s.iter_mut().skip(1) {
                        s.ss = 1;
                        s.se = 63;
                    }
                    same(c, &DEF, &img, &b, &s, &t_opt)?;
                    c.count("blocks", 2 * bl.len() as u64);
                    Ok(())
                },
            );
        }
    }
    // E2: two coefficients anywhere, new or already known when the refinement comes
    let pairs: [(i16, i16); 8] = [(1, 1), (2, 1), (1, 2), (3, -1), (-1, 2), (3, 3), (-2, -2), (2, -3)];
    for (pi, &(va, vb)) in pairs.iter().enumerate() {
        for eob in [1u32, 0x7fff] {
            c.case(
                || format!("E2: values {},{} at every pair of positions, EOB limit {}", va, vb, eob),
                |c| {
                    let mut bl = vec![];
                    for i in 1..64 {
                        for j in i + 1..64 {
                            let mut b = [0i16; 64];
                            b[i] = va;
                            b[j] = vb;
                            if pi & 1 == 1 {
                                b[63] = if b[63] == 0 { 2 } else { b[63] };
                            }
                            bl.push(b);
                        }
                    }
                    let img = blocks_image(&bl, 63, [60; 64]);
                    let b = base(c, &DEF, &img)?;
                    for al in 1..=2u8 {
                        let mut s = vec![Scan::new(&[0], 0, 0, 0, 0), Scan::new(&[0], 1, 63, 0, al).eob(eob)];
                        for x in (0..al).rev() {
                            s.push(Scan::new(&[0], 1, 63, x + 1, x).eob(eob));
                        }
                        same(c, &DEF, &img, &b, &s, &t_opt)?;
                    }
                    c.count("blocks", 2 * bl.len() as u64);
                    Ok(())
                },
            );
        }
    }
    // E3: dense known coefficients (many correction bits per block) with k new ones
    for density in 1..=63 {
        for al in 1..=3u8 {
            c.case(
                || format!("E3: every {}th coefficient known before refinement, Al={}", density, al),
                |c| {
                    let mut bl = vec![];
                    for i in 0..64 {
                        let mut b = [0i16; 64];
                        for k in 1..64 {
                            if k % density == i % density {
                                b[k] = if k & 1 == 1 { 9 } else { -11 };
                            } else if k == i {
                                b[k] = 1;
                            }
                        }
                        bl.push(b);
                        bl.push([0; 64]);
                    }
                    let img = blocks_image(&bl, 16, [4; 64]);
                    let b = base(c, &DEF, &img)?;
                    for eob in [1, 2, 0x7fff] {
                        let mut s = vec![Scan::new(&[0], 0, 0, 0, 0), Scan::new(&[0], 1, 63, 0, al).eob(eob)];
                        for x in (0..al).rev() {
                            s.push(Scan::new(&[0], 1, 63, x + 1, x).eob(eob));
                        }
                        same(c, &DEF, &img, &b, &s, &t_opt)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // E3b: one symbol followed by any number of correction bits, at every bit phase
    for n in 0..=62usize {
        c.case(
            || format!("E3b: {} known coefficients, then a new one", n),
            |c| {
                let mut bl = vec![];
                for ph in 0..c.pick(33usize, 64) {
                    // known only: ph correction bits
                    let mut b = [0i16; 64];
                    for k in 1..=ph.min(63) {
                        b[k] = if (k + ph) % 3 == 0 { 9 } else { -8 };
                    }
                    bl.push(b);
                    for tail in [0usize, 1, 62 - n] {
                        let mut b = [0i16; 64];
                        for k in 1..=n {
                            b[k] = if (k * 5 + ph) % 7 < 3 { 3 } else { -2 };
                        }
                        b[n + 1] = if ph % 2 == 0 { 1 } else { -1 };
                        for k in n + 2..(n + 2 + tail).min(64) {
                            b[k] = if k % 2 == 0 { 2 } else { -3 };
                        }
                        bl.push(b);
                    }
                }
                let img = blocks_image(&bl, 23, [6; 64]);
                let b = base(c, &DEF, &img)?;
                for tf in [&t_opt as TableFn, &t_long, &t_skew] {
                    for eob in [1, 0x7fff] {
                        let s = [Scan::new(&[0], 0, 0, 0, 0), Scan::new(&[0], 1, 63, 0, 1).eob(eob), Scan::new(&[0], 1, 63, 1, 0).eob(eob)];
                        same(c, &DEF, &img, &b, &s, tf)?;
                    }
                }
                Ok(())
            },
        );
    }
    // E4: block sequences: empty, first/last coefficient, known, known and new
    let nb = c.pick(5, 6);
    for seq in 0..5usize.pow(nb as u32) {
        c.case(
            || format!("E4: sequence {} of {} blocks over 5 shapes", seq, nb),
            |c| {
                let mut bl = vec![];
                let mut x = seq;
                for _ in 0..nb {
                    let mut b = [0i16; 64];
                    match x % 5 {
                        0 => {}
                        1 => b[1] = 1,
                        2 => b[63] = -1,
                        3 => {
                            b[5] = 3;
                            b[6] = -2
                        }
                        _ => {
                            b[2] = 2;
                            b[40] = 1;
                            b[63] = 3
                        }
                    }
                    x /= 5;
                    bl.push(b);
                }
                let per = [1, 2, 3, nb][seq % 4];
                let img = blocks_image(&bl, per, [50; 64]);
                let b = base(c, &DEF, &img)?;
                for (al, eob) in [(0, 0x7fff), (0, 2), (1, 0x7fff), (1, 1), (1, 3)] {
                    let mut s = vec![Scan::new(&[0], 0, 0, 0, 0), Scan::new(&[0], 1, 63, 0, al).eob(eob)];
                    for x in (0..al).rev() {
                        s.push(Scan::new(&[0], 1, 63, x + 1, x).eob(eob));
                    }
                    same(c, &DEF, &img, &b, &s, &t_opt).map_err(|e| format!("Al={} EOB limit {}: {}", al, eob, e))?;
                }
                Ok(())
            },
        );
    }
    // G: every point transform, refined bit by bit, with coefficients of every magnitude
    for al in 0..=13u8 {
        for dc in [false, true] {
            for split in [false, true] {
                c.case(
                    || format!("G: {} Al={} refined to 0, band split {}", if dc { "DC" } else { "AC" }, al, split),
                    |c| {
                        let mut bl = vec![];
                        for bit in 0..10 {
                            for k in 0..64usize {
                                for v in [1i16 << bit, -(1 << bit), (1 << bit) + (1 << bit >> 1) + 1, 1 - (2 << bit)] {
                                    let mut b = [0i16; 64];
                                    b[0] = (k as i16 * 31 + bit as i16 * 77) % 1000 - 500;
                                    b[k] = v.clamp(-1023, 1023);
                                    if k > 2 {
                                        b[k / 2 + 1] = if k % 2 == 0 { 3 } else { -700 };
                                    }
                                    bl.push(b);
                                }
                            }
                        }
                        let img = blocks_image(&bl, 80, [1; 64]);
                        let b = base(c, &DEF, &img)?;
                        let bands: &[(u8, u8)] = if split { &[(1, 2), (3, 20), (21, 63)] } else { &[(1, 63)] };
                        let (dal, aal) = if dc { (al, 0) } else { (0, al) };
                        let mut s = vec![Scan::new(&[0], 0, 0, 0, dal)];
                        for &(ss, se) in bands {
                            s.push(Scan::new(&[0], ss, se, 0, aal));
                        }
                        for x in (0..dal).rev() {
                            s.push(Scan::new(&[0], 0, 0, x + 1, x));
                        }
                        for x in (0..aal).rev() {
                            for &(ss, se) in bands {
                                s.push(Scan::new(&[0], ss, se, x + 1, x));
                            }
                        }
                        same(c, &DEF, &img, &b, &s, &t_opt)
                    },
                );
            }
        }
    }
    // H: every width and height of a thin image, coarse content
    let n = c.pick(2048usize, 16384);
    for kind in 0..5 {
        for wide in [true, false] {
            for lo in (1..=n).step_by(32) {
                c.case(
                    || format!("H: {} every {} from {} to {}", kind_name(kind), if wide { "width" } else { "height" }, lo, (lo + 31).min(n)),
                    |c| {
                        for v in lo..(lo + 32).min(n + 1) {
                            let mut img = if wide { make(kind, v, 1 + v % 17) } else { make(kind, 1 + v % 17, v) };
                            for (ci, comp) in img.comps.iter_mut().enumerate() {
                                for (i, b) in comp.blocks.iter_mut().enumerate() {
                                    b[0] = ((i * 37 + ci * 11) % 800) as i16 - 400;
                                    b[1 + i % 63] = 40;
                                }
                            }
                            let o = DEF.cs(CSS[v % 5]);
                            let b = base(c, &o, &img)?;
                            let script = if v % 3 == 0 { separate_dc(&img) } else { simple_script(&img) };
                            same(c, &o, &img, &b, &script, &t_flat).map_err(|e| format!("{}x{}: {}", img.w, img.h, e))?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // F: end-of-band runs of every length up to a bound and around powers of two
    let mut runs: Vec<usize> = (1..c.pick(40, 300)).collect();
    for p in 5..15 {
        runs.extend([(1 << p) - 1, 1 << p, (1 << p) + 1]);
    }
    runs.extend([32766, 32767, 32768, 32769, 40000]);
    for &r in &runs {
        c.case(
            || format!("F: {} blocks without AC between two with", r),
            |c| {
                let mut bl = vec![[0i16; 64]; r + 2];
                bl[0][1] = 2;
                bl[r + 1][63] = -3;
                for (i, b) in bl.iter_mut().enumerate() {
                    b[0] = (i % 50) as i16;
                }
                for per in [1, 7, 128, 200] {
                    if cdiv(bl.len(), per) > 8000 || (r > 5000 && per == 7) {
                        continue;
                    }
                    let img = blocks_image(&bl, per, [20; 64]);
                    let o = DEF.max(65535, 65535);
                    let b = base(c, &o, &img)?;
                    for al in 0..2 {
                        let mut s = vec![Scan::new(&[0], 0, 0, 0, 0), Scan::new(&[0], 1, 63, 0, al)];
                        if al == 1 {
                            s.push(Scan::new(&[0], 1, 63, 1, 0));
                        }
                        same(c, &o, &img, &b, &s, &t_opt)?;
                    }
                }
                Ok(())
            },
        );
    }
}

/// the common universe (uni.rs)
fn universe(c: &mut Ctx) {
    uni::images(c, |c, u, img| {
        let mut base: std::collections::HashMap<String, Res> = Default::default();
        let plain = file(&uni::parts(img, 0, 0, 0).parts);
        uni::files(c, u, img, 1..uni::FORMS, |c, form, tabs, ri, e| {
            let d = file(&e.parts);
            for k in 0..2 {
                let m = u.mix() + form + tabs * 3 + ri * 5 + k;
                let o = DEF.cs(CSS[m % 5]).us(m % 2 == 0).strict(m % 4 < 2).threads([4, 1, 3][m % 3]);
                let key = format!("{:?}{}", o.cs, o.us);
                if !base.contains_key(&key) {
                    let r = c.decode(&o, &plain);
                    base.insert(key.clone(), r);
                }
                let (r, b) = (c.decode(&o, &d), &base[&key]);
                c.count("states", 1);
                c.count("transitions", 1);
                c.count("validated", 1);
                if !r.same(b) || b.ok().is_none() {
                    return Err(format!("{:?}: {} instead of {} for the sequential form", o, r.brief(), b.brief()));
                }
            }
            Ok(())
        })
    });
}
