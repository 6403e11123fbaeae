//! Decodes files of the reference model with two independent decoders (jpeg-decoder and libjpeg via
//! mozjpeg) and compares every sample with the reference reconstruction. A disagreement means that
//! the model's encoder or its reference is wrong, whatever zune-jpeg does.
#[path = "../../mc/src/jpeg.rs"]
#[allow(dead_code)]
mod jpeg;
use jpeg::*;

fn planes(rf: &Ref, img: &Image) -> Vec<(usize, Vec<f64>)> {
    (0..img.comps.len())
        .map(|ci| {
            let pl = rf.plane(img, ci);
            let c = &img.comps[ci];
            let (fh, fv) = (img.hmax / c.h, img.vmax / c.v);
            let u = if img.comps.len() > 1 && (fh > 1 || fv > 1) { Ref::upsample(&pl, fh, fv) } else { pl };
            (u.0, u.2)
        })
        .collect()
}

/// stored (not interpolated) samples of libjpeg for grayscale, YCbCr at full resolution otherwise
fn moz(d: &[u8], gray: bool) -> Result<Vec<u8>, String> {
    let r = std::panic::catch_unwind(|| {
        let d = mozjpeg::Decompress::new_mem(d).map_err(|e| e.to_string())?;
        let mut s = d.to_colorspace(if gray { mozjpeg::ColorSpace::JCS_GRAYSCALE } else { mozjpeg::ColorSpace::JCS_YCbCr }).map_err(|e| e.to_string())?;
        let v: Option<Vec<u8>> = if gray { s.read_scanlines::<[u8; 1]>().map(|v| v.into_iter().flatten().collect()) } else { s.read_scanlines::<[u8; 3]>().map(|v| v.into_iter().flatten().collect()) };
        v.ok_or("no scanlines".to_string())
    });
    r.unwrap_or_else(|_| Err("libjpeg reports an error".into()))
}
fn jd(d: &[u8]) -> Result<Vec<u8>, String> {
    jpeg_decoder::Decoder::new(d).decode().map_err(|e| e.to_string())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let rf = Ref::new();
    let (mut files, mut samples, mut worst_y, mut worst_c) = (0u64, 0u64, 0f64, 0f64);
    let n: usize = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(26);
    for kind in 0..5usize {
        for w in 1..=n {
            for h in 1..=n {
                let mut img = if kind == 0 { Image::gray(w, h) } else { Image::color(w, h, [(1, 1), (2, 1), (1, 2), (2, 2)][kind - 1]) };
                fill(&mut img, (kind * 1000 + w * 31 + h) as u64);
                let mut v: Vec<(String, Vec<u8>)> = vec![];
                let tfs: [(&str, TableFn); 4] = [("opt", &t_opt), ("flat", &t_flat), ("skew", &t_skew), ("long", &t_long)];
                for (i, (t, tf)) in tfs.iter().enumerate() {
                    for ri in [0, 1 + (w + h + i) % 4] {
                        v.push((format!("baseline {} ri {}", t, ri), file(&encode(&img, false, &[baseline_scan(&img, ri)], *tf).parts)));
                        let s: Vec<Scan> = simple_script(&img).into_iter().map(|s| s.ri(ri)).collect();
                        v.push((format!("progressive {} ri {}", t, ri), file(&encode(&img, true, &s, *tf).parts)));
                        let s: Vec<Scan> = full_script(&img).into_iter().map(|s| s.ri(ri)).collect();
                        v.push((format!("refinement {} ri {}", t, ri), file(&encode(&img, true, &s, *tf).parts)));
                    }
                }
                let pl = planes(&rf, &img);
                let nc = img.comps.len();
                for (name, d) in &v {
                    files += 1;
                    let a = moz(d, nc == 1).unwrap_or_else(|e| fail(d, format!("kind {} {}x{} {}: libjpeg: {}", kind, w, h, name, e)));
                    let b = jd(d).unwrap_or_else(|e| fail(d, format!("kind {} {}x{} {}: jpeg-decoder: {}", kind, w, h, name, e)));
                    if a.len() != w * h * nc || b.len() != w * h * nc {
                        fail::<()>(d, format!("kind {} {}x{} {}: lengths {} {}", kind, w, h, name, a.len(), b.len()));
                    }
                    for i in 0..w * h {
                        for c in 0..nc {
                            let e = pl[c].1[(i / w) * pl[c].0 + i % w];
                            let x = (a[i * nc + c] as f64 - e).abs();
                            samples += 1;
                            if c == 0 { worst_y = worst_y.max(x) } else { worst_c = worst_c.max(x) }
                            // libjpeg interpolates across rows of blocks, where the reference
                            // stops: only samples it computes the same way are compared
                            let sub = nc == 3 && c > 0 && kind > 1;
                            if !sub && x > 1.001 {
                                fail::<()>(d, format!("kind {} {}x{} {}: libjpeg channel {} pixel {}: {} exact {:.2}", kind, w, h, name, c, i, a[i * nc + c], e));
                            }
                            if nc == 1 && (b[i] as f64 - e).abs() > 1.001 {
                                fail::<()>(d, format!("kind {} {}x{} {}: jpeg-decoder pixel {}: {} exact {:.2}", kind, w, h, name, i, b[i], e));
                            }
                        }
                    }
                }
                // all encodings of one image agree bit for bit in libjpeg
                let a0 = moz(&v[0].1, nc == 1).unwrap();
                let b0 = jd(&v[0].1).unwrap();
                for (name, d) in &v {
                    if moz(d, nc == 1).unwrap() != a0 || jd(d).unwrap() != b0 {
                        fail::<()>(d, format!("kind {} {}x{} {}: differs from the first encoding", kind, w, h, name));
                    }
                }
            }
        }
    }
    println!("conformance: {} files, {} samples; largest difference of libjpeg from the exact model: luma {:.3}, chroma (interpolated differently) {:.3}", files, samples, worst_y, worst_c);
}
fn fail<T>(d: &[u8], m: String) -> T {
    std::fs::write("/tmp/conform-fail.jpg", d).ok();
    println!("MODEL DISAGREES: {}", m);
    std::process::exit(1);
}
