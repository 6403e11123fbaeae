//! Chroma interpolation.
use super::common::*;
use super::*;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C18",
        level: "model_checking",
        rule: "states: (image, stored chroma planes) ; the stored planes are what the decoder itself returns for the chroma blocks alone as a grayscale image; every output chroma sample is compared with the integer triangle filter of those planes; all sizes up to the bound for the three subsampled layouts, baseline and progressive; every width and every height up to a larger bound and extreme ones to 65535; an impulse at every stored sample of a small image; all 65536 pairs of neighbouring levels horizontally and all constant levels; every code path (CPU feature level, platform code forbidden)",
        assumptions: &[],
        passes: simd_passes,
        run,
    }
}

/// the samples of component `ci`, decoded on their own
fn stored(c: &mut Ctx, img: &Image, ci: usize, o: &Opt) -> Result<(usize, usize, Vec<u8>), String> {
    let p = &img.comps[ci];
    let mut g = Image::gray(p.bw * 8, p.bh * 8);
    g.qt[0] = img.qt[p.tq as usize];
    g.comps[0].tq = 0;
    for y in 0..p.bh {
        for x in 0..p.bw {
            let k = y * g.comps[0].bw + x;
            g.comps[0].blocks[k] = p.blocks[y * p.bw + x];
        }
    }
    let d = c.decode(&o.cs(Cs::GRAYSCALE), &baseline(&g)).want("chroma blocks as a grayscale image")?;
    Ok((p.bw * 8, p.bh * 8, d))
}

/// exact filter, times 16
fn filter(p: &(usize, usize, Vec<u8>), h: bool, v: bool, x: usize, y: usize) -> i32 {
    let at = |x: usize, y: usize| p.2[y * p.0 + x] as i32;
    let col = |x: usize| -> i32 {
        if !v {
            return 4 * at(x, y);
        }
        let n = y / 2;
        let f = if y % 2 == 0 {
            if n % 8 == 0 { n } else { n - 1 }
        } else if n % 8 == 7 {
            n
        } else {
            n + 1
        };
        3 * at(x, n) + at(x, f)
    };
    if !h {
        return 4 * col(x);
    }
    let n = x / 2;
    let f = if x % 2 == 0 { n.saturating_sub(1) } else { (n + 1).min(p.0 - 1) };
    3 * col(n) + col(f)
}

fn check_chroma(c: &mut Ctx, img: &Image, data: &[u8], o: &Opt) -> Result<(), String> {
    let out = c.decode(&o.cs(Cs::YCbCr), data).want("image")?;
    if out.len() != img.w * img.h * 3 {
        return Err(format!("{} bytes for {}x{}", out.len(), img.w, img.h));
    }
    let (h, v) = (img.hmax == 2, img.vmax == 2);
    // one rounding per halved direction
    let tol = if h && v { 16 } else { 8 };
    for ci in 0..3 {
        if img.comps[ci].bw.max(img.comps[ci].bh) * 8 > 65535 {
            continue; // cannot be decoded on its own
        }
        let p = stored(c, img, ci, o)?;
        for y in 0..img.h {
            for x in 0..img.w {
                let got = out[(y * img.w + x) * 3 + ci] as i32;
                let (e, tol) = if ci == 0 { (16 * p.2[y * p.0 + x] as i32, 0) } else { (filter(&p, h, v, x, y), tol) };
                if (16 * got - e).abs() > tol {
                    return Err(format!("{:?}: channel {} at x={} y={} is {}, the filter gives {}", o, ci, x, y, got, e as f64 / 16.0));
                }
                // equal neighbours leave nothing to round
                if ci > 0 && e % 16 == 0 && 16 * got != e {
                    let near = p.2[(if v { y / 2 } else { y }) * p.0 + if h { x / 2 } else { x }] as i32;
                    let all_same = same_around(&p, h, v, x, y, near);
                    if all_same {
                        return Err(format!("{:?}: channel {} at x={} y={} is {} where all stored samples around are {}", o, ci, x, y, got, near));
                    }
                }
            }
        }
        c.count("samples_compared", (img.w * img.h) as u64);
    }
    c.count("validated", 1);
    Ok(())
}
fn same_around(p: &(usize, usize, Vec<u8>), h: bool, v: bool, x: usize, y: usize, n: i32) -> bool {
    let (sx, sy) = (if h { x / 2 } else { x } as i64, if v { y / 2 } else { y } as i64);
    let (dx, dy) = (h as i64, v as i64);
    for yy in (sy - dy).max(0)..=(sy + dy).min(p.1 as i64 - 1) {
        for xx in (sx - dx).max(0)..=(sx + dx).min(p.0 as i64 - 1) {
            if p.2[yy as usize * p.0 + xx as usize] as i32 != n {
                return false;
            }
        }
    }
    true
}

/// forward DCT of an 8x8 block of levels, quantiser 1, zig-zag order
pub fn fdct(s: &[f64; 64]) -> [i16; 64] {
    let zz = zigzag();
    let mut o = [0i16; 64];
    let cs = |k: usize| if k == 0 { (0.5f64).sqrt() } else { 1.0 };
    for k in 0..64 {
        let (u, v) = (zz[k] % 8, zz[k] / 8);
        let mut a = 0.0;
        for y in 0..8 {
            for x in 0..8 {
                a += (s[y * 8 + x] - 128.0)
                    * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos()
                    * ((2 * y + 1) as f64 * v as f64 * std::f64::consts::PI / 16.0).cos();
            }
        }
        o[k] = (a * cs(u) * cs(v) / 4.0).round() as i16;
    }
    o
}
fn ones() -> [u8; 64] {
    [1; 64]
}

fn run(c: &mut Ctx) {
    universe(c);
    let native = c.pass.cpu == Cpu::Native;
    // every size
    let (mw, mh) = if native { c.pick((49usize, 35usize), (131, 67)) } else { (35, 33) };
    for kind in 2..5usize {
        for w in 1..=mw {
            for blk in 0..(mh + 7) / 8 {
                c.case(
                    || format!("{} width {} heights {}..={}", kind_name(kind), w, blk * 8 + 1, (blk * 8 + 8).min(mh)),
                    |c| {
                        for h in blk * 8 + 1..=(blk * 8 + 8).min(mh) {
                            let img = filled(make(kind, w, h), (w * 31 + h) as u64);
                            let b = baseline(&img);
                            for &us in us_axis(c) {
                                check_chroma(c, &img, &b, &DEF.us(us).threads(1))?;
                            }
                            if h % 5 == 0 || !c.quick() {
                                let p = progressive(&img, &simple_script(&img));
                                for &us in us_axis(c) {
                                    check_chroma(c, &img, &p, &DEF.us(us).threads(1)).map_err(|e| format!("progressive {}", e))?;
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // every length in one direction, and extreme ones
    let far = if native { c.pick(1600usize, 8200) } else { 300 };
    for kind in 2..5usize {
        for tall in [false, true] {
            for blk in 0..far / 20 {
                c.case(
                    || format!("{} every {} {}..={}", kind_name(kind), if tall { "height" } else { "width" }, blk * 20 + 1, blk * 20 + 20),
                    |c| {
                        for n in blk * 20 + 1..=blk * 20 + 20 {
                            let (w, h) = if tall { (5 + n % 3 * 12, n) } else { (n, [9, 17, 8][n % 3]) };
                            let img = filled(make(kind, w, h), (n * 7 + kind) as u64);
                            let b = if n % 2 == 0 { baseline(&img) } else { progressive(&img, &simple_script(&img)) };
                            for &us in us_axis(c) {
                                check_chroma(c, &img, &b, &DEF.us(us).threads(1))?;
                            }
                        }
                        Ok(())
                    },
                );
            }
            if native {
                for n in [4095usize, 4096, 4097, 8191, 8193, 16383, 16384, 16385, 16400, 32767, 32768, 32769, 32784, 49152, 65534, 65535] {
                    for prog in [false, true] {
                        c.case(
                            || format!("{} {} {} progressive {}", kind_name(kind), if tall { "height" } else { "width" }, n, prog),
                            |c| {
                                for m in [9usize, 17] {
                                    let (w, h) = if tall { (m, n) } else { (n, m) };
                                    let img = filled(make(kind, w, h), (n * 7 + kind) as u64);
                                    let b = if prog { progressive(&img, &simple_script(&img)) } else { baseline(&img) };
                                    for &us in us_axis(c) {
                                        check_chroma(c, &img, &b, &DEF.us(us).threads(1).max(65535, 65535))?;
                                    }
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
    // an impulse at every stored sample
    for kind in 2..5usize {
        let (bx, by) = (3usize, 3usize);
        for sy in 0..by * 8 {
            c.case(
                || format!("{} impulses in stored row {}", kind_name(kind), sy),
                |c| {
                    let s = SAMP[kind - 1];
                    for sx in 0..bx * 8 {
                        for (bg, level) in [(128.0, 255.0), (255.0, 0.0), (0.0, 255.0)] {
                            let mut img = make(kind, bx * 8 * s.0, by * 8 * s.1).quant(0, ones()).quant(1, ones());
                            for ci in 1..3 {
                                let p = &mut img.comps[ci];
                                let bw = p.bw;
                                for y in 0..by {
                                    for x in 0..bx {
                                        let mut b = [bg; 64];
                                        // the two components have theirs at different places
                                        let (ix, iy) = if ci == 1 { (sx, sy) } else { (bx * 8 - 1 - sx, by * 8 - 1 - sy) };
                                        if (ix / 8, iy / 8) == (x, y) {
                                            b[iy % 8 * 8 + ix % 8] = level;
                                        }
                                        p.blocks[y * bw + x] = fdct(&b);
                                    }
                                }
                            }
                            let b = baseline(&img);
                            for &us in us_axis(c) {
                                check_chroma(c, &img, &b, &DEF.us(us).threads(1))?;
                            }
                            c.count("impulses", 1);
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // every pair of levels, side by side: DC-only blocks
    for kind in [2usize, 4] {
        for diff in 0..256usize {
            c.case(
                || format!("{} all pairs of levels that differ by {} modulo 256", kind_name(kind), diff),
                |c| {
                    let s = SAMP[kind - 1];
                    let mut q = [1u8; 64];
                    q[0] = 8;
                    let mut img = make(kind, 512 * 8 * s.0, 8 * s.1).quant(0, q).quant(1, q);
                    for ci in 1..3 {
                        for x in 0..256usize {
                            let (a, b) = if ci == 1 { (x, (x + diff) % 256) } else { ((x + diff) % 256, x) };
                            img.comps[ci].blocks[2 * x][0] = a as i16 - 128;
                            img.comps[ci].blocks[2 * x + 1][0] = b as i16 - 128;
                        }
                    }
                    c.count("level_pairs", 256);
                    let b = baseline(&img);
                    for &us in us_axis(c) {
                        check_chroma(c, &img, &b, &DEF.us(us).threads(1))?;
                    }
                    Ok(())
                },
            );
        }
    }
    // pairs of levels one above the other
    for kind in [3usize, 4] {
        for diff in (0..256usize).step_by(c.pick(4, 1)) {
            c.case(
                || format!("{} levels one above the other that differ by {} modulo 256", kind_name(kind), diff),
                |c| {
                    let s = SAMP[kind - 1];
                    let mut img = make(kind, 256 * 8 * s.0, 8 * s.1).quant(0, ones()).quant(1, ones());
                    for x in 0..256usize {
                        let mut b = [0.0; 64];
                        for (k, v) in b.iter_mut().enumerate() {
                            // the step is between different rows in different blocks
                            *v = if k / 8 <= x % 7 { x } else { (x + diff) % 256 } as f64;
                        }
                        img.comps[1].blocks[x] = fdct(&b);
                        b.reverse();
                        img.comps[2].blocks[x] = fdct(&b);
                    }
                    let d = baseline(&img);
                    for &us in us_axis(c) {
                        check_chroma(c, &img, &d, &DEF.us(us).threads(1))?;
                    }
                    Ok(())
                },
            );
        }
    }
    // constant chroma stays constant
    for kind in 2..5usize {
        for (w, h) in [(1usize, 1usize), (17, 17), (33, 18), (50, 40), (5, 35)] {
            c.case(
                || format!("{} {}x{} constant chroma", kind_name(kind), w, h),
                |c| {
                    let mut q = [1u8; 64];
                    q[0] = 8;
                    for lv in 0..256i32 {
                        let mut img = make(kind, w, h).quant(0, q).quant(1, q);
                        for ci in 0..3 {
                            let l = [255 - lv, lv, (lv * 7 + 3) % 256][ci];
                            for b in img.comps[ci].blocks.iter_mut() {
                                b[0] = (l - 128) as i16;
                            }
                        }
                        let d = baseline(&img);
                        for &us in us_axis(c) {
                            let o = DEF.us(us).threads(1).cs(Cs::YCbCr);
                            let out = c.decode(&o, &d).want("image")?;
                            for (i, v) in out.iter().enumerate() {
                                let l = [255 - lv, lv, (lv * 7 + 3) % 256][i % 3];
                                if *v != out[i % 3] || (*v as i32 - l).abs() > 1 {
                                    return Err(format!("{:?}: constant level {} of channel {} becomes {} at x={} y={}", o, l, i % 3, v, i / 3 % w, i / 3 / w));
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

/// the common universe (uni.rs)
fn universe(c: &mut Ctx) {
    uni::images(c, |c, u, img| {
        if u.kind < 2 {
            return Ok(());
        }
        uni::files(c, u, img, 0..uni::FORMS, |c, form, tabs, ri, e| {
            let m = u.mix() + form + tabs * 3 + ri * 5;
            if form > 0 && m % 4 != 0 {
                return Ok(());
            }
            let o = DEF.us(m % 2 == 0).strict(m % 3 == 0).threads([4, 1, 3][m % 3]);
            check_chroma(c, img, &file(&e.parts), &o)
        })
    });
}
