//! Accelerated and portable code produce identical pixels.
use super::c04::blocks_image;
use super::common::*;
use super::*;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C09",
        level: "exploration",
        rule: "inputs: every size up to a bound x sampling x output layout, every coefficient-row/column subset at several amplitudes including illegal ones, every quantised colour triple on a grid, chroma extremes, every single-byte corruption of small files; each is decoded with platform code allowed, forbidden by option and compiled out, on the native CPU and with AVX2 / all SIMD hidden by CPUID faulting; results must be equal bytes (X of RGBX excepted) or all errors",
        assumptions: &["hiding CPU features through CPUID faulting exercises the same code as a CPU without them"],
        passes: |_| {
            vec![
                Pass::new("native", Cpu::Native, 8),
                Pass::new("noavx2", Cpu::NoAvx2, 8),
                Pass::new("nosimd", Cpu::NoSimd, 8),
            ]
        },
        run,
    }
}

fn mask(r: Res, cs: Cs) -> Res {
    match (r, cs) {
        (Res::Ok(mut v), Cs::RGBX) => {
            for p in v.chunks_exact_mut(4) {
                p[3] = 0;
            }
            Res::Ok(v)
        }
        (r, _) => r,
    }
}
fn agree(c: &mut Ctx, o: &Opt, data: &[u8], w: usize) -> Result<(), String> {
    let a = mask(c.decode(&o.us(true), data), o.cs);
    let b = mask(c.decode(&o.us(false), data), o.cs);
    let p = mask(c.decode_p(&o.us(true), data), o.cs);
    let show = |x: &Res, y: &Res| match (x, y) {
        (Res::Ok(x), Res::Ok(y)) => first_diff(x, y, w, ch(o.cs)),
        _ => format!("{} and {}", x.brief(), y.brief()),
    };
    if !a.same(&b) {
        return Err(format!("{:?}: allowed and forbidden by option differ: {}", o.cs, show(&a, &b)));
    }
    if !a.same(&p) {
        return Err(format!("{:?}: compiled in and compiled out differ: {}", o.cs, show(&a, &p)));
    }
    Ok(())
}

fn run(c: &mut Ctx) {
    universe(c);
    // sizes
    let sizes: Vec<(usize, usize)> = {
        let mut v = vec![];
        let hs: &[usize] = if c.quick() { &[1, 2, 8, 9, 17, 33] } else { &[1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 47, 64, 65] };
        for w in 1..=c.pick(66usize, 140) {
            for &h in hs {
                v.push((w, h));
            }
        }
        v.extend([(255, 40), (256, 16), (257, 31), (1000, 50), (1023, 17), (2049, 33)]);
        v
    };
    for kind in 0..5usize {
        for &(w, h) in &sizes {
            c.case(
                || format!("{} {}x{}", kind_name(kind), w, h),
                |c| {
                    let img = filled(make(kind, w, h), (w * 77 + h) as u64);
                    let b = baseline(&img);
                    for cs in CSS {
                        agree(c, &DEF.cs(cs), &b, w)?;
                    }
                    let cs = CSS[(w + h) % 5];
                    agree(c, &DEF.cs(cs), &progressive(&img, &full_script(&img)), w)?;
                    agree(c, &DEF.cs(cs), &baseline_ri(&img, 1 + w % 3), w)
                },
            );
        }
    }
    // blocks
    let zz = zigzag();
    let amps: &[i32] = if c.quick() { &[3, 60, 700, 2047] } else { &[1, 3, 17, 60, 255, 700, 1023, 2047] };
    for rows in 0..256usize {
        c.case(
            || format!("coefficient rows {:08b} x every set of columns", rows),
            |c| {
                for &amp in amps {
                    let mut bl = vec![];
                    for cols in 0..256usize {
                        let mut b = [0i16; 64];
                        for k in 0..64 {
                            let (v, u) = (zz[k] / 8, zz[k] % 8);
                            if rows >> v & 1 == 1 && cols >> u & 1 == 1 {
                                let h = ((v * 37 + u * 101 + rows * 7 + cols * 13) % 97) as i32;
                                b[k] = (h * amp / 48 - amp).clamp(-1023, 1023) as i16;
                            }
                        }
                        bl.push(b);
                    }
                    let img = blocks_image(&bl, 64, [2; 64]);
                    let d = file(&encode(&img, false, &[baseline_scan(&img, 0)], &t_flat).parts);
                    agree(c, &DEF.cs(Cs::GRAYSCALE), &d, img.w).map_err(|e| format!("amplitude {}: {}", amp, e))?;
                }
                Ok(())
            },
        );
    }
    for k in 0..64usize {
        c.case(
            || format!("position {} with every other, extreme values and quantisers", k),
            |c| {
                for q in [1u8, 2, 17, 128, 255] {
                    let mut bl = vec![];
                    for k2 in 0..64usize {
                        for m in [1i16, 7, 100, 1023] {
                            for s in 0..4 {
                                let mut b = [0i16; 64];
                                b[k2] = if s & 2 == 0 { m } else { -m };
                                b[k] = if s & 1 == 0 { 1023 } else { -1023 };
                                bl.push(b);
                            }
                        }
                    }
                    let img = blocks_image(&bl, 64, [q; 64]);
                    let d = file(&encode(&img, false, &[baseline_scan(&img, 0)], &t_flat).parts);
                    agree(c, &DEF.cs(Cs::GRAYSCALE), &d, img.w).map_err(|e| format!("quantiser {}: {}", q, e))?;
                }
                Ok(())
            },
        );
    }
    // dense extreme blocks: every sign pattern of rows x columns at the largest values
    for sr in 0..256usize {
        c.case(
            || format!("dense blocks of +-1023 with row signs {:08b}, every column sign pattern", sr),
            |c| {
                for q in [1u8, 3, 255] {
                    let mut bl = vec![];
                    for sc in 0..256usize {
                        let mut b = [0i16; 64];
                        for k in 0..64 {
                            let (v, u) = (zz[k] / 8, zz[k] % 8);
                            b[k] = if (sr >> v ^ sc >> u) & 1 == 1 { 1023 } else { -1023 };
                        }
                        bl.push(b);
                    }
                    let img = blocks_image(&bl, 64, [q; 64]);
                    let d = file(&encode(&img, false, &[baseline_scan(&img, 0)], &t_flat).parts);
                    agree(c, &DEF.cs(Cs::GRAYSCALE), &d, img.w).map_err(|e| format!("quantiser {}: {}", q, e))?;
                }
                Ok(())
            },
        );
    }
    // DC only, whole range
    for q in [1usize, 2, 3, 5, 8, 13, 16, 31, 64, 100, 127, 128, 200, 254, 255] {
        c.case(
            || format!("DC only, quantiser {}, every DC", q),
            |c| {
                let bl: Vec<[i16; 64]> = (-2047i16..=2047)
                    .map(|v| {
                        let mut b = [0; 64];
                        b[0] = v;
                        b
                    })
                    .collect();
                let img = blocks_image(&bl, 64, [q as u8; 64]);
                agree(c, &DEF.cs(Cs::GRAYSCALE), &file(&encode(&img, false, &[baseline_scan(&img, 0)], &t_flat).parts), img.w)
            },
        );
    }
    // colour triples: all Y, a grid of (Cb,Cr) that includes the extremes
    for y in 0..256usize {
        c.case(
            || format!("Y={} with a grid of (Cb,Cr)", y),
            |c| {
                let step = c.pick(5usize, 1);
                let g: Vec<usize> = (0..256).step_by(step).chain([1, 127, 128, 129, 254]).collect();
                let n = g.len();
                let mut img = Image::color(n * 8, n * 8, (1, 1));
                img.qt[0] = Some([8; 64]);
                img.qt[1] = Some([8; 64]);
                for i in 0..n * n {
                    img.comps[0].blocks[i][0] = y as i16 - 128;
                    img.comps[1].blocks[i][0] = g[i % n] as i16 - 128;
                    img.comps[2].blocks[i][0] = g[i / n] as i16 - 128;
                }
                let d = file(&encode(&img, false, &[baseline_scan(&img, 0)], &t_flat).parts);
                for cs in [Cs::RGB, Cs::RGBA, Cs::RGBX] {
                    if c.quick() && cs != [Cs::RGB, Cs::RGBA, Cs::RGBX][y % 3] && y % 16 != 0 {
                        continue;
                    }
                    agree(c, &DEF.cs(cs), &d, img.w)?;
                }
                Ok(())
            },
        );
    }
    // chroma interpolation: every pair of neighbouring levels on a grid, each sampling
    for kind in 2..5usize {
        for a in (0..256usize).step_by(c.pick(8, 1)) {
            c.case(
                || format!("{}: chroma level {} next to every other", kind_name(kind), a),
                |c| {
                    let n = 16usize;
                    let (sh, sv) = SAMP[kind - 1];
                    let mut img = Image::color(n * 8 * sh, n * 16 * sv, (sh, sv));
                    img.qt[0] = Some([8; 64]);
                    img.qt[1] = Some([8; 64]);
                    let zero = img.comps[1].blocks.len();
                    for i in 0..zero {
                        let lev = if (i % n + i / n) % 2 == 0 { a } else { (i * 3) % 256 };
                        img.comps[1].blocks[i][0] = lev as i16 - 128;
                        img.comps[2].blocks[i][0] = 127 - lev as i16;
                        img.comps[1].blocks[i][2] = (i % 23) as i16 - 11;
                        img.comps[2].blocks[i][1] = (i % 31) as i16 - 15;
                    }
                    let d = baseline(&img);
                    for cs in [Cs::YCbCr, Cs::RGB] {
                        agree(c, &DEF.cs(cs), &d, img.w)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // corruptions: every byte of small files replaced by several values
    for kind in 0..5usize {
        for prog in [false, true] {
            let img = filled(make(kind, 19, 18), 3 + kind as u64);
            let data = if prog { progressive(&img, &full_script(&img)) } else { baseline_ri(&img, 2) };
            for pos in 0..data.len() {
                c.case(
                    || format!("{} progressive={} byte {} of {} replaced", kind_name(kind), prog, pos, data.len()),
                    |c| {
                        let old = data[pos];
                        let mut d = data.clone();
                        let vals: Vec<u8> = if c.quick() {
                            vec![0, 1, 0x22, 0x7f, 0xff, old ^ 1, old ^ 0x80, old.wrapping_add(1)]
                        } else {
                            (0..=255).collect()
                        };
                        for v in vals {
                            if v == old {
                                continue;
                            }
                            d[pos] = v;
                            let o = DEF.cs(CSS[(pos + v as usize) % 5]).max(400, 400);
                            agree(c, &o, &d, 1).map_err(|e| format!("value {:02x}: {}", v, e))?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

/// the common universe (uni.rs)
fn universe(c: &mut Ctx) {
    uni::images(c, |c, u, img| {
        uni::files(c, u, img, 0..uni::FORMS, |c, form, tabs, ri, e| {
            if (form + tabs + ri + u.mix()) % 4 != 0 {
                return Ok(());
            }
            let d = file(&e.parts);
            for cs in CSS {
                agree(c, &DEF.cs(cs).strict(tabs % 2 == 0), &d, u.w)?;
            }
            Ok(())
        })
    });
}
