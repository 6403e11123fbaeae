#![allow(dead_code)]
use crate::ctx::*;
use crate::jpeg::*;

pub const SAMP: [(usize, usize); 4] = [(1, 1), (2, 1), (1, 2), (2, 2)];
pub const CSS: [Cs; 5] = [Cs::RGB, Cs::RGBA, Cs::RGBX, Cs::YCbCr, Cs::GRAYSCALE];

/// which settings of "allow platform specific code" a pass explores
pub fn us_axis(c: &Ctx) -> &'static [bool] {
    if c.pass.cpu == Cpu::Native {
        &[true, false]
    } else {
        &[true]
    }
}

/// kind 0: grayscale, 1..=4: colour with the sampling of that index
pub fn kind_name(kind: usize) -> String {
    if kind == 0 {
        "gray".into()
    } else {
        format!("{}x{}", SAMP[kind - 1].0, SAMP[kind - 1].1)
    }
}
pub fn make(kind: usize, w: usize, h: usize) -> Image {
    if kind == 0 {
        Image::gray(w, h)
    } else {
        Image::color(w, h, SAMP[kind - 1])
    }
}

pub struct Planes {
    /// (stride, rows, exact samples at full resolution, tolerance)
    pub p: Vec<(usize, usize, Vec<f64>, f64)>,
}
pub fn planes(rf: &Ref, img: &Image) -> Planes {
    let mut v = vec![];
    for ci in 0..img.comps.len() {
        let pl = rf.plane(img, ci);
        let c = &img.comps[ci];
        let (fh, fv) = (img.hmax / c.h, img.vmax / c.v);
        if img.comps.len() > 1 && (fh > 1 || fv > 1) {
            let u = Ref::upsample(&pl, fh, fv);
            v.push((u.0, u.1, u.2, 2.0));
        } else {
            v.push((pl.0, pl.1, pl.2, 1.0));
        }
    }
    Planes { p: v }
}
const EPS: f64 = 1e-6;

/// compare interleaved samples (1 or 3 channels) with the model
pub fn compare_planes(img: &Image, pl: &Planes, out: &[u8]) -> Result<(), String> {
    let n = img.comps.len();
    if out.len() != img.w * img.h * n {
        return Err(format!("{} bytes for a {}x{} image with {} channels", out.len(), img.w, img.h, n));
    }
    for y in 0..img.h {
        for x in 0..img.w {
            for c in 0..n {
                let (stride, _, d, tol) = &pl.p[c];
                let e = d[y * stride + x];
                let o = out[(y * img.w + x) * n + c] as f64;
                if (o - e).abs() > tol + EPS {
                    return Err(format!("channel {} at x={} y={}: {} but the exact value is {:.3}", c, x, y, o, e));
                }
            }
        }
    }
    Ok(())
}
/// RGB-type output against the YCbCr output of the same file
pub fn compare_rgb(w: usize, ycc: &[u8], out: &[u8], ch: usize, alpha: bool) -> Result<(), String> {
    if out.len() / ch != ycc.len() / 3 || out.len() % ch != 0 {
        return Err(format!("{} bytes for {} pixels of {} channels", out.len(), ycc.len() / 3, ch));
    }
    for i in 0..ycc.len() / 3 {
        let e = jfif(ycc[3 * i] as f64, ycc[3 * i + 1] as f64, ycc[3 * i + 2] as f64);
        for c in 0..3 {
            let o = out[i * ch + c] as f64;
            if (o - e[c]).abs() > 2.0 + EPS {
                return Err(format!(
                    "channel {} at x={} y={}: {} but YCbCr {:?} converts to {:.3}",
                    c,
                    i % w,
                    i / w,
                    o,
                    &ycc[3 * i..3 * i + 3],
                    e[c]
                ));
            }
        }
        if alpha && out[i * ch + 3] != 255 {
            return Err(format!("alpha is {} at x={} y={}", out[i * ch + 3], i % w, i / w));
        }
    }
    Ok(())
}

pub fn ch(cs: Cs) -> usize {
    cs.num_components()
}

/// Decode `data` into every supported colourspace and compare each with the model of `img`.
pub fn check_image(c: &mut Ctx, rf: &Ref, img: &Image, data: &[u8], o: &Opt) -> Result<(), String> {
    let pl = planes(rf, img);
    if img.comps.len() == 1 {
        for cs in [Cs::GRAYSCALE, Cs::RGB] {
            let o = o.cs(cs);
            let r = c.decode(&o, data).want(&format!("{:?} unsafe={}", cs, o.us))?;
            c.count("validated", 1);
            compare_planes(img, &pl, &r).map_err(|e| format!("{:?} unsafe={}: {}", cs, o.us, e))?;
        }
        return Ok(());
    }
    let oy = o.cs(Cs::YCbCr);
    let ycc = c.decode(&oy, data).want(&format!("YCbCr unsafe={}", o.us))?;
    compare_planes(img, &pl, &ycc).map_err(|e| format!("YCbCr unsafe={}: {}", o.us, e))?;
    c.count("validated", 1);
    check_colours(c, img.w, data, o, &ycc)
}
/// all other outputs against the YCbCr output
pub fn check_colours(c: &mut Ctx, w: usize, data: &[u8], o: &Opt, ycc: &[u8]) -> Result<(), String> {
    for cs in [Cs::RGB, Cs::RGBA, Cs::RGBX] {
        let r = c.decode(&o.cs(cs), data).want(&format!("{:?} unsafe={}", cs, o.us))?;
        c.count("validated", 1);
        compare_rgb(w, ycc, &r, ch(cs), cs == Cs::RGBA).map_err(|e| format!("{:?} unsafe={}: {}", cs, o.us, e))?;
    }
    let g = c.decode(&o.cs(Cs::GRAYSCALE), data).want(&format!("GRAYSCALE unsafe={}", o.us))?;
    c.count("validated", 1);
    let y: Vec<u8> = ycc.chunks_exact(3).map(|p| p[0]).collect();
    if g != y {
        return Err(format!("GRAYSCALE unsafe={} is not the Y channel: {}", o.us, first_diff(&g, &y, w, 1)));
    }
    Ok(())
}
/// quantiser tables used where nothing else is said: mild, position dependent
pub fn qpos(seed: u8) -> [u8; 64] {
    let mut q = [0u8; 64];
    for (k, v) in q.iter_mut().enumerate() {
        *v = 1 + ((k as u32 * 7 + seed as u32 * 13) % 11) as u8;
    }
    q
}

/// application and comment segments that take up exactly `n` bytes (n == 0 or n >= 4)
pub fn padding(n: usize) -> Vec<Part> {
    let mut v = vec![];
    let mut left = n;
    while left > 0 {
        let mut k = left.min(65537 - 2);
        if left - k > 0 && left - k < 4 {
            k -= 8;
        }
        v.push(Part::seg([0xe2, 0xfe, 0xe1][v.len() % 3], (0..k - 4).map(|i| (i * 5 + 1) as u8).collect()));
        left -= k;
    }
    v
}
/// header sizes around powers of two
pub fn pad_sizes(quick: bool) -> Vec<usize> {
    let mut v = vec![];
    for e in 7..=if quick { 21 } else { 24 } {
        let n = 1usize << e;
        v.extend([n.saturating_sub(700), n - 20, n - 2, n, n + 2, n + 5].iter().filter(|&&x| x >= 4));
    }
    v
}

/// an image of one value, the entropy-coded data written directly: one bit per DC, one per end of block
pub fn constant(kind: usize, prog: bool, w: usize, h: usize) -> Vec<u8> {
    let img = make(kind, 8, 8);
    let zero_first = |tc: u8, _: u8, _: &[u32; 256]| if tc == 0 { Table::from_lengths(&[(0, 1), (5, 2)]) } else { Table::from_lengths(&[(0, 1)]) };
    let mut sc = baseline_scan(&img, 0);
    if prog {
        sc = Scan::new(&(0..img.comps.len()).collect::<Vec<_>>(), 0, 0, 0, 0);
    }
    let mut parts = encode(&img, prog, &[sc], &zero_first).parts;
    let f = parts.iter_mut().find(|p| p.marker == 0xc0 || p.marker == 0xc2).unwrap();
    f.body[1..5].copy_from_slice(&[(h >> 8) as u8, h as u8, (w >> 8) as u8, w as u8]);
    let (sh, sv) = if kind == 0 { (1, 1) } else { SAMP[kind - 1] };
    let blocks = cdiv(w, 8 * sh) * cdiv(h, 8 * sv) * if kind == 0 { 1 } else { sh * sv + 2 };
    let s = parts.iter_mut().find(|p| p.marker == 0xda).unwrap();
    // the first difference is 31
    s.data = vec![0; cdiv(blocks * if prog { 1 } else { 2 } + 6, 8)];
    s.data[0] = 0b1011_1110;
    file(&parts)
}

/// an image whose luma blocks have one of 16 levels each and whose chroma is neutral, the
/// entropy-coded data written directly; a progressive one has a DC scan only
pub fn mosaic(kind: usize, prog: bool, w: usize, h: usize, ri: usize) -> Vec<u8> {
    let q = [32u8; 64];
    let img = make(kind, 8, 8).quant(0, q).quant(1, q);
    let dc = Table::flat(&[0, 1, 2, 3, 4]);
    let zero = Table::flat(&[0]);
    let tabs = |tc: u8, _: u8, _: &[u32; 256]| if tc == 0 { dc.clone() } else { zero.clone() };
    let mut sc = baseline_scan(&img, ri);
    if prog {
        sc = Scan::new(&(0..img.comps.len()).collect::<Vec<_>>(), 0, 0, 0, 0).ri(ri);
    }
    let mut parts = encode(&img, prog, &[sc], &tabs).parts;
    let f = parts.iter_mut().find(|p| p.marker == 0xc0 || p.marker == 0xc2).unwrap();
    f.body[1..5].copy_from_slice(&[(h >> 8) as u8, h as u8, (w >> 8) as u8, w as u8]);
    let (sh, sv) = if kind == 0 { (1, 1) } else { SAMP[kind - 1] };
    let (mx, my) = (cdiv(w, 8 * sh), cdiv(h, 8 * sv));
    let (dc, zero) = (dc.codes(), zero.codes());
    let mut o = BitWriter::new();
    let mut pred = 0i32;
    for m in 0..mx * my {
        if ri > 0 && m > 0 && m % ri == 0 {
            o.align();
            o.out.extend([0xff, 0xd0 + ((m / ri - 1) & 7) as u8]);
            pred = 0;
        }
        for v in 0..sv {
            for k in 0..sh {
                let l = mosaic_level(m % mx * sh + k, m / mx * sv + v);
                let d = l - pred;
                pred = l;
                let s = cat(d);
                let (code, n) = dc[s as usize].unwrap();
                o.put(code, n);
                o.put((if d < 0 { d - 1 } else { d }) as u32, s);
                if !prog {
                    let (code, n) = zero[0].unwrap();
                    o.put(code, n);
                }
            }
        }
        if kind > 0 {
            for _ in 0..2 {
                let (code, n) = dc[0].unwrap();
                o.put(code, n);
                if !prog {
                    let (code, n) = zero[0].unwrap();
                    o.put(code, n);
                }
            }
        }
    }
    o.align();
    parts.iter_mut().find(|p| p.marker == 0xda).unwrap().data = o.out;
    file(&parts)
}
/// the number of blocks that are complete in the data of a sequential gray mosaic
pub fn mosaic_blocks(data: &[u8], ri: usize) -> usize {
    // one-bit-a-step reading of the codes above
    let (dc, zero) = (Table::flat(&[0, 1, 2, 3, 4]).codes(), Table::flat(&[0]).codes());
    let zn = zero[0].unwrap().1 as usize;
    let mut bits: Vec<u8> = vec![];
    let (mut blocks, mut i) = (0, 0);
    // cut into segments at the restart markers
    let mut segs: Vec<Vec<u8>> = vec![];
    while i < data.len() {
        if data[i] == 0xff && data.get(i + 1).map_or(false, |b| (0xd0..0xd8).contains(b)) {
            segs.push(std::mem::take(&mut bits));
            i += 2;
            continue;
        }
        (0..8).for_each(|k| bits.push(data[i] >> (7 - k) & 1));
        i += 1 + (data[i] == 0xff) as usize;
    }
    segs.push(bits);
    let n = segs.len();
    for (j, s) in segs.into_iter().enumerate() {
        if j + 1 < n {
            blocks += ri;
            continue;
        }
        let mut p = 0;
        while ri == 0 || blocks < (j + 1) * ri {
            let (mut code, mut l, mut hit) = (0u32, 0u8, None);
            while hit.is_none() && p < s.len() {
                code = code << 1 | s[p] as u32;
                l += 1;
                p += 1;
                hit = (0..5usize).find(|&k| dc[k] == Some((code, l)));
            }
            match hit {
                Some(k) if p + k + zn <= s.len() => p += k + zn,
                _ => break,
            }
            blocks += 1;
        }
    }
    blocks
}
fn mosaic_level(bx: usize, by: usize) -> i32 {
    let k = (bx as u32).wrapping_mul(0x9e37_79b1) ^ (by as u32).wrapping_mul(0x85eb_ca6b);
    ((k ^ k >> 15).wrapping_mul(0x2c1b_3c6d) >> 28) as i32 - 8
}
/// the gray output of a mosaic
pub fn compare_mosaic(w: usize, h: usize, out: &[u8]) -> Result<(), String> {
    if out.len() != w * h {
        return Err(format!("{} bytes instead of {}", out.len(), w * h));
    }
    let mut row = vec![0u8; w];
    for y in 0..h {
        if y % 8 == 0 {
            for (x, v) in row.iter_mut().enumerate() {
                *v = (128 + 4 * mosaic_level(x / 8, y / 8)) as u8;
            }
        }
        let r = &out[y * w..][..w];
        if r != &row[..] {
            let x = (0..w).find(|&x| r[x] != row[x]).unwrap();
            return Err(format!("pixel ({},{}) is {} instead of {}", x, y, r[x], row[x]));
        }
    }
    Ok(())
}
/// images of many MCUs
pub fn mosaics(c: &mut Ctx, prog: bool, list: &[(usize, usize, usize, usize)]) {
    for &(kind, w, h, ri) in list {
        c.case(
            || format!("{} {}x{}, interval {}: {} MCUs", kind_name(kind), w, h, ri, mcus(kind, w, h)),
            |c| {
                let d = mosaic(kind, prog, w, h, ri);
                let o = DEF.cs(Cs::GRAYSCALE).max(65535, 65535).threads(1).us((w + h) % 16 == 0);
                let r = c.decode(&o, &d);
                c.count("states", 1);
                c.count("transitions", 1);
                c.count("validated", 1);
                compare_mosaic(w, h, r.ok().ok_or("decode fails")?).map_err(|e| format!("{}x{} interval {}: {}", w, h, ri, e))
            },
        );
    }
}
fn mcus(kind: usize, w: usize, h: usize) -> usize {
    let (sh, sv) = if kind == 0 { (1, 1) } else { SAMP[kind - 1] };
    cdiv(w, 8 * sh) * cdiv(h, 8 * sv)
}
