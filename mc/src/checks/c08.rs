//! Colour conversion for every YCbCr triple and every output layout.
use super::common::*;
use super::*;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C08",
        level: "model_checking",
        rule: "states: all 2^24 (Y,Cb,Cr) triples (256 images of 65536 one-colour blocks each) x output layout x use_unsafe, and every pixel position of rows of every width up to a bound at extreme colours; transitions: decodes; RGB within 2 of the JFIF conversion, RGBA/RGBX equal to RGB with alpha 255, YCbCr and GRAYSCALE equal to the samples, CMYK/YCCK an error",
        assumptions: &["a DC-only block with quantiser 8 reconstructs to its exact level (decided by C07)"],
        passes: simd_passes,
        run,
    }
}

fn image(y: usize) -> Image {
    let mut img = Image::color(2048, 2048, (1, 1));
    img.qt[0] = Some([8; 64]);
    img.qt[1] = Some([8; 64]);
    for b in 0..65536usize {
        // neighbouring blocks differ in all three components
        let by = b / 256;
        let cb = (b + by * 7) % 256;
        img.comps[0].blocks[b][0] = y as i16 - 128;
        img.comps[1].blocks[b][0] = cb as i16 - 128;
        img.comps[2].blocks[b][0] = by as i16 - 128;
    }
    img
}

fn run(c: &mut Ctx) {
    // every triple
    for y in 0..256usize {
        c.case(
            || format!("Y={} with every (Cb,Cr)", y),
            |c| {
                let img = image(y);
                let data = file(&encode(&img, false, &[baseline_scan(&img, 0)], &t_flat).parts);
                // acceptable range per triple
                let mut rng = vec![[(0u8, 0u8); 3]; 65536];
                for cb in 0..256 {
                    for cr in 0..256 {
                        let e = jfif(y as f64, cb as f64, cr as f64);
                        for i in 0..3 {
                            rng[cb << 8 | cr][i] = ((e[i] - 2.0 - 1e-6).max(0.0).ceil() as u8, (e[i] + 2.0 + 1e-6).min(255.0).floor() as u8);
                        }
                    }
                }
                let w = 2048;
                for &us in us_axis(c) {
                    let o = DEF.us(us);
                    let rgb = c.decode(&o, &data).want("RGB")?;
                    if rgb.len() != w * w * 3 {
                        return Err(format!("RGB has {} bytes", rgb.len()));
                    }
                    for (i, p) in rgb.chunks_exact(3).enumerate() {
                        let (bx, by) = (i % w / 8, i / w / 8);
                        let cb = (bx + by * 256 + by * 7) % 256;
                        let r = &rng[cb << 8 | by];
                        for k in 0..3 {
                            if p[k] < r[k].0 || p[k] > r[k].1 {
                                return Err(format!("unsafe={}: (Y,Cb,Cr)=({},{},{}) becomes {:?}, JFIF says {:.2?}", us, y, cb, by, p, jfif(y as f64, cb as f64, by as f64)));
                            }
                        }
                    }
                    c.count("validated", 65536);
                    // the other layouts
                    let sel = y % 4 == 0 || y >= 250 || y <= 3 || !c.quick();
                    if sel {
                        for cs in [Cs::RGBA, Cs::RGBX] {
                            let r = c.decode(&o.cs(cs), &data).want("RGBA/RGBX")?;
                            for (i, (p, q)) in rgb.chunks_exact(3).zip(r.chunks_exact(4)).enumerate() {
                                if p != &q[..3] || (cs == Cs::RGBA && q[3] != 255) {
                                    return Err(format!("unsafe={} {:?} pixel {} is {:?}, RGB {:?}", us, cs, i, q, p));
                                }
                            }
                            if r.len() != w * w * 4 {
                                return Err(format!("{:?} has {} bytes", cs, r.len()));
                            }
                        }
                        let r = c.decode(&o.cs(Cs::YCbCr), &data).want("YCbCr")?;
                        if r.len() != w * w * 3 {
                            return Err(format!("YCbCr has {} bytes", r.len()));
                        }
                        for (i, p) in r.chunks_exact(3).enumerate() {
                            let (bx, by) = (i % w / 8, i / w / 8);
                            let cb = (bx + by * 256 + by * 7) % 256;
                            if p != [y as u8, cb as u8, by as u8] {
                                return Err(format!("unsafe={} YCbCr pixel {} is {:?}, samples {:?}", us, i, p, (y, cb, by)));
                            }
                        }
                        let r = c.decode(&o.cs(Cs::GRAYSCALE), &data).want("GRAYSCALE")?;
                        if r.len() != w * w || r.iter().any(|&p| p != y as u8) {
                            return Err(format!("unsafe={} GRAYSCALE is not Y={}", us, y));
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // layouts at every width: extreme colours varying along the row
    for kind in 1..5usize {
        for w in 1..=c.pick(70usize, 200) {
            for h in [1usize, 9, 17] {
                c.case(
                    || format!("{} {}x{}: layouts agree", kind_name(kind), w, h),
                    |c| {
                        let mut img = make(kind, w, h);
                        img.qt[0] = Some([8; 64]);
                        img.qt[1] = Some([8; 64]);
                        for ci in 0..3 {
                            for (i, b) in img.comps[ci].blocks.iter_mut().enumerate() {
                                b[0] = [-128, 127, 0, 90, -60, 127, -128][(i * (ci + 2) + ci + w) % 7];
                                b[1] = [13, -9, 0, 30][(i + ci) % 4];
                                b[2] = [-7, 21, 40, 0][(i * 3 + ci) % 4];
                            }
                        }
                        for prog in [false, true] {
                            let data = if prog { progressive(&img, &simple_script(&img)) } else { baseline(&img) };
                            for &us in us_axis(c) {
                                let o = DEF.us(us);
                                let ycc = c.decode(&o.cs(Cs::YCbCr), &data).want("YCbCr")?;
                                check_colours(c, w, &data, &o, &ycc)?;
                                let rgb = c.decode(&o, &data).want("RGB")?;
                                for cs in [Cs::RGBA, Cs::RGBX] {
                                    let r = c.decode(&o.cs(cs), &data).want("RGBA/RGBX")?;
                                    if !rgb.chunks_exact(3).zip(r.chunks_exact(4)).all(|(p, q)| p == &q[..3]) {
                                        return Err(format!("unsafe={} {:?} and RGB have different colours", us, cs));
                                    }
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // colourspaces that cannot be produced
    for kind in 1..5usize {
        for (w, h) in [(1, 1), (8, 8), (17, 16), (40, 33)] {
            for cs in [Cs::CMYK, Cs::YCCK] {
                c.case(
                    || format!("{} {}x{} to {:?}", kind_name(kind), w, h, cs),
                    |c| {
                        let img = filled(make(kind, w, h), 9);
                        for data in [baseline(&img), progressive(&img, &simple_script(&img)), baseline_ri(&img, 1)] {
                            for us in [true, false] {
                                for strict in [false, true] {
                                    for threads in [1, 4] {
                                        let r = c.decode(&DEF.us(us).strict(strict).threads(threads).cs(cs), &data);
                                        if !r.is_err() {
                                            return Err(format!("{:?} unsafe={}: {}", cs, us, r.brief()));
                                        }
                                    }
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}
