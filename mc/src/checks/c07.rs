//! Dequantisation and inverse DCT: within one level of the exact value, and saturating.
use super::c04::blocks_image;
use super::common::*;
use super::*;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C07",
        level: "model_checking",
        rule: "states: coefficient blocks x quantisation tables: every position x every dequantised value in -2047..2047 for every table entry, every pair of positions at extreme values with every sign, every subset of coefficient rows x columns, DC-only blocks over the whole DC range x every table entry, sample patterns of zeros and 255s through an exact forward DCT, every table assignment to components; transitions: decodes; every sample must be within 1 of the exact inverse DCT",
        assumptions: &["double precision reference in mc/src/jpeg.rs (error below 1e-9)"],
        passes: simd_passes,
        run,
    }
}

fn go(c: &mut Ctx, rf: &Ref, blocks: &[[i16; 64]], q: [u8; 64]) -> Result<(), String> {
    let per = blocks.len().min(48);
    let img = blocks_image(blocks, per, q);
    let pl = planes(rf, &img);
    let d = baseline_fast(&img);
    for &us in us_axis(c) {
        let r = c.decode(&DEF.cs(Cs::GRAYSCALE).us(us), &d).want("decode")?;
        c.count("validated", blocks.len() as u64);
        compare_planes(&img, &pl, &r).map_err(|e| {
            // name the block
            let mut m = e.clone();
            if let Some((x, y)) = at(&e) {
                let b = &img.comps[0].blocks[y / 8 * img.comps[0].bw + x / 8];
                let nz: Vec<(usize, i16)> = (0..64).filter(|&k| b[k] != 0).map(|k| (k, b[k])).collect();
                m += &format!(" (block with zig-zag coefficients {:?})", nz);
            }
            format!("unsafe={}: {}", us, m)
        })?;
    }
    Ok(())
}
fn at(e: &str) -> Option<(usize, usize)> {
    let x = e.split("x=").nth(1)?.split(' ').next()?.parse().ok()?;
    let y = e.split("y=").nth(1)?.split(':').next()?.parse().ok()?;
    Some((x, y))
}
/// flat tables: cheaper than optimal ones
fn baseline_fast(img: &Image) -> Vec<u8> {
    file(&encode(img, false, &[baseline_scan(img, 0)], &t_flat).parts)
}

/// exact forward DCT of samples minus 128, divided by q and rounded, zig-zag order
fn fdct(s: &[f64; 64], q: u8) -> [i16; 64] {
    let zz = zigzag();
    let mut o = [0i16; 64];
    let mut t = [0.0; 64];
    let cu = |u: usize| if u == 0 { 0.5f64.sqrt() } else { 1.0 };
    let co = |x: usize, u: usize| cu(u) / 2.0 * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos();
    for y in 0..8 {
        for u in 0..8 {
            t[y * 8 + u] = (0..8).map(|x| co(x, u) * (s[y * 8 + x] - 128.0)).sum();
        }
    }
    for k in 0..64 {
        let (v, u) = (zz[k] / 8, zz[k] % 8);
        let f: f64 = (0..8).map(|y| co(y, v) * t[y * 8 + u]).sum();
        o[k] = (f / q as f64).round() as i16;
    }
    o
}

fn run(c: &mut Ctx) {
    let rf = Ref::new();
    // 1. one coefficient, every position, every value
    for k in 0..64usize {
        for part in 0..8 {
            c.case(
                || format!("position {}: every value in -2047..2047, part {}", k, part),
                |c| {
                    let bl: Vec<[i16; 64]> = (-2047i16..=2047)
                        .filter(|v| v.rem_euclid(8) == part)
                        .map(|v| {
                            let mut b = [0; 64];
                            b[k] = v;
                            b
                        })
                        .collect();
                    go(c, &rf, &bl, [1; 64])
                },
            );
        }
        // every table entry
        for q0 in (1..=255usize).step_by(16) {
            c.case(
                || format!("position {}: quantiser {}..{}", k, q0, q0 + 15),
                |c| {
                    for q in q0..=(q0 + 15).min(255) {
                        let m = 2047 / q as i16;
                        let step = if c.quick() { (m / 5).max(1) } else { 1 };
                        let mut bl = vec![];
                        let mut v = -m;
                        while v <= m {
                            let mut b = [0; 64];
                            b[k] = v;
                            bl.push(b);
                            v += step;
                        }
                        let mut b = [0; 64];
                        b[k] = m;
                        bl.push(b);
                        // only this position has the quantiser, its neighbours another one
                        let mut t = [if q == 1 { 255 } else { 1 }; 64];
                        t[k] = q as u8;
                        go(c, &rf, &bl, t)?;
                    }
                    Ok(())
                },
            );
        }
        // every table entry, with DC terms that keep large coefficients from saturating
        for q0 in (1..=255usize).step_by(16) {
            c.case(
                || format!("position {}: quantiser {}..{} with DC terms", k, q0, q0 + 15),
                |c| {
                    if k == 0 {
                        return Ok(());
                    }
                    for q in q0..=(q0 + 15).min(255) {
                        let m = 2047 / q as i16;
                        let mut bl = vec![];
                        for v in [m, m - 1, m / 2, m / 3 + 1, -m, -m / 2] {
                            for dc in [-1020i16, -800, -500, -250, 250, 500, 800, 1020] {
                                let mut b = [0; 64];
                                b[0] = dc;
                                b[k] = v;
                                bl.push(b);
                            }
                        }
                        let mut t = [3; 64];
                        t[0] = 2;
                        t[k] = q as u8;
                        go(c, &rf, &bl, t)?;
                    }
                    Ok(())
                },
            );
        }
        // with a DC term that puts the samples next to the limits
        c.case(
            || format!("position {} with DC terms around the limits", k),
            |c| {
                if k == 0 {
                    return Ok(());
                }
                let mut bl = vec![];
                for dc in [-2047i16, -1100, -1032, -1024, -1016, -900, -500, 4, 500, 900, 1000, 1016, 1024, 1040, 1100, 2047] {
                    for v in [-2047i16, -1000, -300, -50, -8, -4, -1, 1, 3, 4, 9, 40, 333, 1000, 2047] {
                        let mut b = [0; 64];
                        b[0] = dc;
                        b[k] = v;
                        bl.push(b);
                    }
                }
                go(c, &rf, &bl, [1; 64])
            },
        );
    }
    // 2. every pair of positions
    for k in 0..63usize {
        c.case(
            || format!("pairs of positions ({}, later)", k),
            |c| {
                let mut bl = vec![];
                for k2 in k + 1..64 {
                    for m in [(2047, 2047), (1024, 1024), (2047, 300), (300, 2047), (255, 255)] {
                        for s in 0..4 {
                            let mut b = [0; 64];
                            b[k] = if s & 1 == 0 { m.0 } else { -m.0 };
                            b[k2] = if s & 2 == 0 { m.1 } else { -m.1 };
                            bl.push(b);
                        }
                    }
                }
                go(c, &rf, &bl, [1; 64])
            },
        );
    }
    // 3. every subset of coefficient rows x columns
    let zz = zigzag();
    for rows in 0..256usize {
        c.case(
            || format!("coefficient rows {:08b} x every set of columns", rows),
            |c| {
                let mut bl = vec![];
                for cols in 0..256usize {
                    let mut b = [0i16; 64];
                    for k in 0..64 {
                        let (v, u) = (zz[k] / 8, zz[k] % 8);
                        if rows >> v & 1 == 1 && cols >> u & 1 == 1 {
                            let h = (v * 37 + u * 101 + rows * 7 + cols * 13) % 97;
                            let a = [700, 260, 120, 60][((u + v) / 4).min(3)];
                            b[k] = (h as i32 * a / 48 - a) as i16;
                            if b[k] == 0 {
                                b[k] = 1;
                            }
                        }
                    }
                    bl.push(b);
                }
                go(c, &rf, &bl, [1; 64])
            },
        );
    }
    // every subset of single columns/rows: one coefficient row or column only, all 256 subsets, large and small
    for line in 0..16usize {
        c.case(
            || format!("one {} {}: every subset of its coefficients", if line < 8 { "row" } else { "column" }, line % 8),
            |c| {
                let mut bl = vec![];
                for set in 0..256usize {
                    for a in [1i16, 100, 2047] {
                        let mut b = [0i16; 64];
                        for k in 0..64 {
                            let (v, u) = (zz[k] / 8, zz[k] % 8);
                            let (i, on) = if line < 8 { (u, v == line) } else { (v, u == line - 8) };
                            if on && set >> i & 1 == 1 {
                                b[k] = if (set * 5 + i) % 3 == 0 { -a } else { a };
                            }
                        }
                        bl.push(b);
                    }
                }
                go(c, &rf, &bl, [1; 64])
            },
        );
    }
    // 4. DC only: the whole DC range x every table entry
    for q in 1..=255usize {
        c.case(
            || format!("DC only, quantiser {}", q),
            |c| {
                let step = if c.quick() { 7 } else { 1 };
                let mut bl = vec![];
                let mut v = -2047i32;
                while v <= 2047 {
                    let mut b = [0; 64];
                    b[0] = v as i16;
                    bl.push(b);
                    // dense where samples are not saturated
                    v += if (v * q as i32).abs() < 1100 { 1 } else { step };
                }
                for v in [2046i16, 2047, -2047, 0] {
                    let mut b = [0; 64];
                    b[0] = v;
                    bl.push(b);
                }
                let mut t = [3; 64];
                t[0] = q as u8;
                go(c, &rf, &bl, t)
            },
        );
    }
    // 5. black/white sample patterns through the exact forward DCT
    for rx in 0..256usize {
        c.case(
            || format!("samples 0/255 with row pattern {:08b} xor every column pattern", rx),
            |c| {
                for q in if c.quick() { &[1u8, 16][..] } else { &[1u8, 3, 16, 40][..] } {
                    let mut bl = vec![];
                    for cy in 0..256usize {
                        let mut s = [0.0; 64];
                        for y in 0..8 {
                            for x in 0..8 {
                                s[y * 8 + x] = if (rx >> x ^ cy >> y) & 1 == 1 { 255.0 } else { 0.0 };
                            }
                        }
                        bl.push(fdct(&s, *q));
                    }
                    go(c, &rf, &bl, [*q; 64])?;
                }
                Ok(())
            },
        );
    }
    // 6. a table in which every entry differs: each coefficient meets its own entry
    for rot in 0..64usize {
        c.case(
            || format!("64 distinct table entries, rotation {}", rot),
            |c| {
                let mut t = [0u8; 64];
                for (i, x) in t.iter_mut().enumerate() {
                    *x = (((i + rot) % 64) * 4 + 2) as u8;
                }
                let mut bl = vec![];
                for k in 0..64usize {
                    for s in [1i16, -1] {
                        let mut b = [0i16; 64];
                        b[k] = s * (400 / t[k] as i16).max(1);
                        bl.push(b);
                        for k2 in [(k + 1) % 64, (k + 9) % 64] {
                            b[k2] = 1;
                            bl.push(b);
                            b[k2] = 0;
                        }
                    }
                }
                go(c, &rf, &bl, t)
            },
        );
    }
    // 7. every assignment of quantisation tables to components
    for a in 0..64usize {
        for prog in [false, true] {
            c.case(
                || format!("tables {} {} {} for Y Cb Cr, progressive {}", a & 3, a >> 2 & 3, a >> 4 & 3, prog),
                |c| {
                    for kind in 1..5 {
                        for order in 0..2 {
                            let mut img = make(kind, 21, 19);
                            for t in 0..4 {
                                let mut q = [0u8; 64];
                                for (i, x) in q.iter_mut().enumerate() {
                                    *x = ((i * [7, 3, 5, 11][t] + 9 * t) % 23 + 1) as u8;
                                }
                                img.qt[t] = Some(q);
                            }
                            img.comps[0].tq = (a & 3) as u8;
                            img.comps[1].tq = (a >> 2 & 3) as u8;
                            img.comps[2].tq = (a >> 4 & 3) as u8;
                            // few terms so that saturation does not hide anything
                            fill(&mut img, a as u64);
                            let script = simple_script(&img);
                            let mut e = if prog {
                                encode(&img, true, &script, &t_opt).parts
                            } else {
                                encode(&img, false, &[baseline_scan(&img, 0)], &t_opt).parts
                            };
                            if order == 1 {
                                // one segment each, last first
                                e.remove(1);
                                for t in 0..4 {
                                    e.insert(1, dqt(&[(t as u8, img.qt[t].unwrap())]));
                                }
                            }
                            let pl = planes(&rf, &img);
                            for &us in us_axis(c) {
                                let r = c.decode(&DEF.cs(Cs::YCbCr).us(us), &file(&e)).want("decode")?;
                                c.count("validated", 1);
                                compare_planes(&img, &pl, &r).map_err(|e| format!("{} unsafe={} {}", kind_name(kind), us, e))?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // 8. the same block shapes in every component, sampling, process and width (the transform is
    // entered with other strides there)
    let shapes = shapes();
    let ns = shapes.len();
    for kind in 0..5 {
        for prog in [false, true] {
            for &w in c.pick(&[8usize, 24, 384, 2100, 4200, 16384][..], &[8usize, 16, 24, 40, 384, 1016, 2040, 2048, 2056, 2100, 4096, 4104, 4200, 8200, 16384, 32768, 65535][..]) {
                c.case(
                    || format!("block shapes in {} width {} progressive {}", kind_name(kind), w, prog),
                    |c| {
                        let h = (ns * 64 / w).max(16).min(2048);
                        let mut img = make(kind, w, h);
                        let mut i = 0;
                        for t in 0..img.comps.len().min(2) {
                            let mut q = [0u8; 64];
                            for (k, x) in q.iter_mut().enumerate() {
                                *x = if t == 0 { 1 + (k % 3) as u8 } else { 1 + (k / 3 % 4) as u8 };
                            }
                            img.qt[t] = Some(q);
                        }
                        for ci in 0..img.comps.len() {
                            let q = img.qt[img.comps[ci].tq as usize].unwrap();
                            for b in img.comps[ci].blocks.iter_mut() {
                                let s = &shapes[i % ns];
                                for k in 0..64 {
                                    b[k] = s[k] / q[k] as i16;
                                }
                                i += 1;
                            }
                        }
                        let d = if prog {
                            file(&encode(&img, true, &simple_script(&img), &t_flat).parts)
                        } else {
                            baseline_fast(&img)
                        };
                        let pl = planes(&rf, &img);
                        for &us in us_axis(c) {
                            let cs = if kind == 0 { Cs::GRAYSCALE } else { Cs::YCbCr };
                            let r = c.decode(&DEF.cs(cs).us(us).max(65535, 65535), &d).want("decode")?;
                            c.count("validated", i as u64);
                            compare_planes(&img, &pl, &r).map_err(|e| format!("unsafe={} {}", us, e))?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

/// dequantised blocks: every position alone at three amplitudes, every coefficient row and column
/// alone, their leading groups, and dense blocks
fn shapes() -> Vec<[i16; 64]> {
    let zz = zigzag();
    let mut v = vec![[0i16; 64]];
    for k in 0..64 {
        for a in [900i16, -900, 120] {
            let mut b = [0i16; 64];
            b[0] = 40;
            b[k] = a;
            v.push(b);
        }
    }
    for m in 0..16usize {
        for a in [60i16, -45] {
            for lead in [false, true] {
                let mut b = [0i16; 64];
                for k in 0..64 {
                    let (r, c) = (zz[k] / 8, zz[k] % 8);
                    let x = if m < 8 { r } else { c };
                    if (lead && x <= m % 8) || (!lead && x == m % 8) {
                        b[k] = if k % 2 == 0 { a } else { -a };
                    }
                }
                v.push(b);
            }
        }
    }
    v
}
