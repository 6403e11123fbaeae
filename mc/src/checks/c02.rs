//! Decoded length and reported metadata match the file.
use super::common::*;
use super::*;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C02",
        level: "model_checking",
        rule: "states: (file, options); every width and height up to the bound and a list of extreme ones, gray and the four samplings, baseline, restarts, progressive, all seven output colourspaces, strict and lenient, platform code allowed or not; long headers, around every power of two; then every single-byte change (all 256 values) of model files, and every prefix of them; whenever decoding succeeds the length is width*height*channels of the frame header and the header read alone reports the same metadata, which is the one of the model",
        assumptions: &[],
        passes: native_pass,
        run,
    }
}

const ALLCS: [Cs; 7] = [Cs::RGB, Cs::GRAYSCALE, Cs::YCbCr, Cs::CMYK, Cs::YCCK, Cs::RGBA, Cs::RGBX];

/// the frame header a decoder must have used: the first one in marker order
pub fn frame(d: &[u8]) -> Option<(u8, usize, usize, u8)> {
    let mut i = 2;
    while i + 1 < d.len() {
        if d[i] != 0xff || d[i + 1] == 0xff {
            i += 1;
            continue;
        }
        let m = d[i + 1];
        if m == 0xc0 || m == 0xc2 {
            let b = d.get(i + 4..i + 10)?;
            return Some((m, (b[3] as usize) << 8 | b[4] as usize, (b[1] as usize) << 8 | b[2] as usize, b[5]));
        }
        let l = (*d.get(i + 2)? as usize) << 8 | *d.get(i + 3)? as usize;
        i += 2 + l;
    }
    None
}

/// the rule itself; Ok(true) if the decode succeeded
fn rule(c: &mut Ctx, o: &Opt, d: &[u8]) -> Result<bool, String> {
    let (r, m) = c.decode_meta(o, d);
    let h = c.headers(o, d);
    if h.1 {
        return Err(format!("{:?}: header read panics: {:?}", o, h.0));
    }
    if let Res::Panic(p) = &r {
        return Err(format!("{:?}: panic {}", o, p));
    }
    let v = match r.ok() {
        Some(v) => v,
        None => return Ok(false),
    };
    let m = m.unwrap();
    let (sof, w, ht, n) = match frame(d) {
        Some(f) => f,
        None => return Err(format!("{:?}: {} although the file has no frame header", o, r.brief())),
    };
    if (m.w as usize, m.h as usize, m.comps) != (w, ht, n) {
        return Err(format!("{:?}: reports {:?}, the frame header says {}x{} with {} components", o, m, w, ht, n));
    }
    if m.sof.contains("rogressive") != (sof == 0xc2) {
        return Err(format!("{:?}: reports the process {} for a frame marker {:02x}", o, m.sof, sof));
    }
    if (m.info.0 as usize, m.info.1 as usize) != (w, ht) || m.class != (sof == 0xc2, sof != 0xc2, false) {
        return Err(format!("{:?}: the info record reports {}x{}, (progressive, sequential, lossless) = {:?} for frame marker {:02x} of {}x{}", o, m.info.0, m.info.1, m.class, sof, w, ht));
    }
    let want = if n == 1 { "GRAYSCALE".to_string() } else { format!("{:?}", o.cs) };
    if m.cs != want {
        return Err(format!("{:?}: reports colourspace {} instead of {}", o, m.cs, want));
    }
    let ch = match m.cs.as_str() {
        "GRAYSCALE" => 1,
        "RGB" | "YCbCr" => 3,
        _ => 4,
    };
    if m.ch != ch {
        return Err(format!("{} has {} channels", m.cs, m.ch));
    }
    if v.len() != w * ht * ch {
        return Err(format!("{:?}: {} bytes for {}x{} pixels of {} channels", o, v.len(), w, ht, ch));
    }
    match h.0 {
        Ok(hm) if hm == m => {}
        x => return Err(format!("{:?}: the header read reports {:?}, the decode {:?}", o, x, m)),
    }
    c.count("validated", 1);
    Ok(true)
}

fn run(c: &mut Ctx) {
    universe(c);
    let n = c.pick(34usize, 80);
    for kind in 0..5usize {
        for w in 1..=n {
            c.case(
                || format!("{} width {}: all heights up to {}", kind_name(kind), w, n),
                |c| {
                    for h in 1..=n {
                        let img = make(kind, w, h);
                        let files = [
                            baseline(&img),
                            baseline_ri(&img, 1 + (w + h) % 3),
                            progressive(&img, &simple_script(&img)),
                        ];
                        for (i, d) in files.iter().enumerate() {
                            for (j, &cs) in ALLCS.iter().enumerate() {
                                // all for the baseline file, the others in turn
                                if i > 0 && j != (w + h + i) % 7 && j != (w * 3 + h) % 7 {
                                    continue;
                                }
                                let o = DEF.cs(cs).threads(1).us((w + h) % 2 == 0).strict(w % 2 == 0);
                                let ok = rule(c, &o, d)?;
                                let possible = kind == 0 || CSS.contains(&cs);
                                if ok != possible {
                                    return Err(format!("{:?} file {}: decodes is {} but should be {}", o, i, ok, possible));
                                }
                                c.count("states", 1);
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // extreme shapes
    let ext = [1usize, 2, 255, 256, 257, 4095, 8192, 16383, 16384, 16385, 32767, 32768, 65520, 65535];
    for kind in 0..5usize {
        for &a in &ext {
            c.case(
                || format!("{} {} by 1..3 and 1..3 by {}", kind_name(kind), a, a),
                |c| {
                    for b in [1usize, 3] {
                        for (w, h) in [(a, b), (b, a)] {
                            let img = make(kind, w, h);
                            for d in [baseline(&img), progressive(&img, &simple_script(&img))] {
                                for cs in [Cs::RGB, Cs::RGBA, Cs::GRAYSCALE] {
                                    let o = DEF.cs(cs).max(65535, 65535);
                                    if !rule(c, &o, &d)? {
                                        return Err(format!("{}x{}: decode fails", w, h));
                                    }
                                    c.count("states", 1);
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // every width and every height of a long thin image
    let m = c.pick(2048usize, 20000);
    for kind in 0..5usize {
        for lo in (1..=m).step_by(16) {
            c.case(
                || format!("{} widths and heights {}..{}", kind_name(kind), lo, lo + 16),
                |c| {
                    for a in lo..lo + 16 {
                        let b = 1 + a % 3;
                        for (w, h) in [(a, b), (b, a)] {
                            let img = make(kind, w, h);
                            let d = if a % 5 == 3 { progressive(&img, &simple_script(&img)) } else { baseline(&img) };
                            for cs in [CSS[a % 5], Cs::RGB] {
                                if !rule(c, &DEF.cs(cs).max(65535, 65535), &d)? {
                                    return Err(format!("{}x{}: decode fails", w, h));
                                }
                                c.count("states", 1);
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
        for (w, h) in if c.quick() { vec![(3001usize, 2999usize), (257, 6000), (6000, 257)] } else { vec![(3001, 2999), (257, 16384), (16384, 257), (8191, 8193), (12000, 9001)] } {
            c.case(
                || format!("{} {}x{}", kind_name(kind), w, h),
                |c| {
                    let img = make(kind, w, h);
                    for d in [baseline(&img), progressive(&img, &simple_script(&img))] {
                        for cs in [Cs::RGBA, Cs::GRAYSCALE, Cs::YCbCr] {
                            if !rule(c, &DEF.cs(cs), &d)? {
                                return Err(format!("{}x{}: decode fails", w, h));
                            }
                            c.count("states", 1);
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // huge images (a run of one value costs two bits a block)
    let mut huge = vec![(0usize, false, 16400usize, 16400usize, Cs::GRAYSCALE), (1, false, 16400, 16400, Cs::RGBA), (4, false, 4100, 65520, Cs::RGBX)];
    if !c.quick() {
        huge.extend([
            (0, false, 46400, 46400, Cs::GRAYSCALE),
            (0, true, 23200, 23200, Cs::GRAYSCALE),
            (2, false, 20000, 14000, Cs::RGBA),
            (3, false, 14000, 20000, Cs::RGBA),
            (4, false, 26800, 26800, Cs::RGB),
            (4, true, 13000, 13000, Cs::RGBA),
            (1, true, 13000, 13000, Cs::RGB),
            (1, false, 65520, 8200, Cs::RGBA),
        ]);
    }
    for (kind, prog, w, h, cs) in huge {
        c.case(
            || format!("{} {}x{} progressive {} in {:?}", kind_name(kind), w, h, prog, cs),
            |c| {
                let d = constant(kind, prog, w, h);
                let o = DEF.cs(cs).max(65535, 65535).threads(1);
                if !rule(c, &o, &d)? {
                    return Err(format!("{}x{}: decode fails", w, h));
                }
                let r = c.decode(&o, &d);
                let (v, n) = (r.ok().ok_or("decode fails")?, ch(cs));
                if let Some(i) = (0..v.len()).step_by(n).find(|&i| v[i..i + n] != v[..n]) {
                    return Err(format!("{}x{}: pixel {} of an image of one colour is {:?} instead of {:?}", w, h, i / n, &v[i..i + n], &v[..n]));
                }
                c.count("states", 1);
                Ok(())
            },
        );
    }
    // layouts of the header: every order of the segments, another one at every place
    for kind in 0..5usize {
        for var in 0..4usize {
            let img = filled(make(kind, 9, 18), 7 + var as u64);
            let parts = match var {
                0 => encode(&img, false, &[baseline_scan(&img, 0)], &t_opt).parts,
                1 => encode(&img, false, &[baseline_scan(&img, 2)], &t_opt).parts,
                2 => encode(&img, true, &simple_script(&img), &t_opt).parts,
                _ => encode(&img, true, &simple_script(&img).into_iter().map(|s| s.ri(2)).collect::<Vec<_>>(), &t_opt).parts,
            };
            let first = parts.iter().position(|p| p.marker == 0xda).unwrap();
            c.case(
                || format!("{} variant {}: layouts of the header", kind_name(kind), var),
                |c| {
                    for pm in super::c04::permutations(first - 1) {
                        let mut p = vec![parts[0].clone()];
                        p.extend(pm.iter().map(|&i| parts[1 + i].clone()));
                        p.extend(parts[first..].iter().cloned());
                        for extra in [None, Some((0xe0u8, &b"JFIF\0\x01\x02\x01\0\x48\0\x48\0\0"[..])), Some((0xee, b"Adobe\0\x64\0\0\0\0\x01")), Some((0xdd, &[0, 0])), Some((0xfe, b"x"))] {
                            for at in 1..=first {
                                let mut q = p.clone();
                                match extra {
                                    // a restart interval is replaced only if none counts
                                    Some((0xdd, _)) if var % 2 == 1 => continue,
                                    Some((m, b)) => q.insert(at, Part::seg(m, b.to_vec())),
                                    None if at > 1 => continue,
                                    None => {}
                                }
                                let o = DEF.strict(at % 2 == 0).cs(CSS[(at + kind) % 5]).threads(1);
                                if !rule(c, &o, &file(&q))? {
                                    return Err(format!("segments {:02x?}: decode fails", q.iter().map(|x| x.marker).collect::<Vec<_>>()));
                                }
                                c.count("states", 1);
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // long headers
    for kind in 0..5usize {
        for prog in [false, true] {
            for size in pad_sizes(c.quick()) {
                c.case(
                    || format!("{} progressive {}: {} bytes of other segments in the headers", kind_name(kind), prog, size),
                    |c| {
                        let img = filled(make(kind, 9, 18), 5);
                        let e = if prog { encode(&img, true, &simple_script(&img), &t_opt) } else { encode(&img, false, &[baseline_scan(&img, 0)], &t_opt) };
                        let first = e.parts.iter().position(|p| p.marker == 0xda).unwrap();
                        for at in 1..=first {
                            let mut p = e.parts.clone();
                            p.splice(at..at, padding(size));
                            let d = file(&p);
                            let o = DEF.strict(at % 2 == 0).cs(CSS[(at + kind) % 5]);
                            if !rule(c, &o, &d)? {
                                return Err(format!("{} bytes before segment {}: decode fails", size, at));
                            }
                            if size <= 1 << 18 {
                                // as fill bytes
                                let mut p = e.parts.clone();
                                p[at].lead = vec![0xff; size];
                                if !rule(c, &o, &file(&p))? {
                                    return Err(format!("{} fill bytes before segment {}: decode fails", size, at));
                                }
                            }
                            c.count("states", 1);
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // every single-byte change, every prefix
    for kind in 0..5usize {
        for var in 0..4usize {
            let img = filled(make(kind, 9, 18), kind as u64 + 1);
            let parts = match var {
                0 => encode(&img, false, &[baseline_scan(&img, 0)], &t_opt).parts,
                1 => encode(&img, false, &[baseline_scan(&img, 2)], &t_std).parts,
                2 => encode(&img, true, &simple_script(&img), &t_opt).parts,
                _ => {
                    // sparse image, so that changes of the size still decode
                    let img = make(kind, 9, 18);
                    encode(&img, false, &[baseline_scan(&img, 0)], &t_std).parts
                }
            };
            let d0 = file(&parts);
            let mut hdr = vec![];
            for p in parts.iter().take_while(|p| p.marker != 0xda) {
                p.bytes(&mut hdr);
            }
            let upto = if c.quick() { (hdr.len() + 40).min(d0.len()) } else { d0.len() };
            for lo in (0..upto).step_by(16) {
                c.case(
                    || format!("{} variant {}: every change of a byte in {}..{}", kind_name(kind), var, lo, lo + 16),
                    |c| {
                        for k in lo..(lo + 16).min(upto) {
                            // a quick run takes all values in the frame and scan headers, some elsewhere
                            for v in 0..=255u8 {
                                if v == d0[k] {
                                    continue;
                                }
                                if c.quick() && k < hdr.len() && v % 5 != 0 && v > 8 && !in_frame(&d0, k) {
                                    continue;
                                }
                                let mut d = d0.clone();
                                d[k] = v;
                                let o = DEF.cs(CSS[(k + v as usize) % 5]).strict(v % 2 == 0).us(v % 4 < 2).threads(1).max(300, 300);
                                let ok = rule(c, &o, &d)?;
                                c.count("states", 1);
                                c.count("changed_files_that_decode", ok as u64);
                            }
                        }
                        Ok(())
                    },
                );
            }
            c.case(
                || format!("{} variant {}: every prefix", kind_name(kind), var),
                |c| {
                    for k in 0..d0.len() {
                        let ok = rule(c, &DEF, &d0[..k])?;
                        c.count("states", 1);
                        c.count("prefixes_that_decode", ok as u64);
                    }
                    Ok(())
                },
            );
            // size fields: all small values in both bytes
            c.case(
                || format!("{} variant {}: frame sizes rewritten", kind_name(kind), var),
                |c| {
                    let f = d0.windows(2).position(|x| x == [0xff, 0xc0] || x == [0xff, 0xc2]).unwrap();
                    for h in 1..c.pick(40u16, 120) {
                        for w in 1..c.pick(40u16, 120) {
                            let mut d = d0.clone();
                            d[f + 5..f + 9].copy_from_slice(&[(h >> 8) as u8, h as u8, (w >> 8) as u8, w as u8]);
                            let ok = rule(c, &DEF.cs(CSS[(w + h) as usize % 5]).threads(1), &d)?;
                            c.count("states", 1);
                            c.count("changed_files_that_decode", ok as u64);
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}
fn in_frame(d: &[u8], k: usize) -> bool {
    let f = d.windows(2).position(|x| x == [0xff, 0xc0] || x == [0xff, 0xc2]).unwrap();
    k >= f && k < f + 20
}

/// the common universe (uni.rs)
fn universe(c: &mut Ctx) {
    uni::images(c, |c, u, img| {
        uni::files(c, u, img, 0..uni::FORMS, |c, form, tabs, ri, e| {
            let d = file(&e.parts);
            let m = u.mix() + form + tabs * 3 + ri * 5;
            for k in 0..2 {
                let o = DEF.cs(CSS[(m + k * 2) % 5]).us(m % 2 == 0).strict(m % 3 == 0).threads([1, 4, 2, 7][m % 4]);
                if !rule(c, &o, &d)? {
                    return Err("decode fails".into());
                }
                c.count("states", 1);
            }
            Ok(())
        })
    });
}
