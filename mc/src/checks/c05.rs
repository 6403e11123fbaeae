//! Restart intervals never change the decoded image.
use super::common::*;
use super::*;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C05",
        level: "model_checking",
        rule: "states: images of up to 2^18 MCUs (thorough 2^22) x long and short intervals; (image, restart interval per scan) for every interval from 1 to past the number of MCUs, baseline and progressive, every pair of intervals for consecutive scans, fill bytes before restart markers, and interval lengths of every number of bits up to a bound; transitions: decodes; every one must equal the decode of the file without restarts",
        assumptions: &["reference encoder in mc/src/jpeg.rs"],
        passes: native_pass,
        run,
    }
}

fn eq(img: &Image, a: &[u8], b: &[u8], what: &str) -> Result<(), String> {
    if a != b {
        return Err(format!("{}: {}", what, first_diff(a, b, img.w, b.len() / (img.w * img.h))));
    }
    Ok(())
}
/// put `n` fill bytes in front of every restart marker
fn fill_before_rst(parts: &mut [Part], n: usize) {
    for p in parts.iter_mut() {
        let mut d = vec![];
        let mut i = 0;
        while i < p.data.len() {
            if p.data[i] == 0xff && i + 1 < p.data.len() && p.data[i + 1] != 0 {
                d.extend(vec![0xff; n]);
            }
            d.push(p.data[i]);
            i += 1;
        }
        p.data = d;
    }
}

fn run(c: &mut Ctx) {
    universe(c);
    // many restarts, long intervals
    for prog in [false, true] {
        let mut l = vec![(0, 2048, 4096, 1), (0, 2056, 4096, 2), (0, 4096, 4104, 3), (4, 4096, 8192, 1), (1, 4096, 2048, 1), (2, 4096, 2048, 1), (3, 2048, 4096, 1)];
        l.extend([255, 256, 257, 4095, 4096, 32767, 32768, 32769, 65534, 65535].map(|ri| (0, 4104, 4096, ri)));
        l.extend([32768, 65535].into_iter().flat_map(|ri| (1..5).map(move |k| (k, 8192, 4096, ri))));
        if !c.quick() {
            l.extend([(0, 16384, 16384, 1), (0, 16384, 16384, 65535), (1, 8192, 8192, 1), (4, 16384, 16384, 1)]);
        }
        mosaics(c, prog, &l);
    }
    let sizes: Vec<(usize, usize)> = if c.quick() {
        vec![(1, 1), (8, 40), (17, 9), (33, 33), (40, 24), (95, 31)]
    } else {
        let mut v = vec![];
        for w in [1, 8, 9, 16, 17, 31, 33, 47, 64, 95] {
            for h in [1, 8, 9, 17, 24, 33, 48, 65] {
                v.push((w, h));
            }
        }
        v
    };
    for kind in 0..5 {
        for &(w, h) in &sizes {
            let img = filled(make(kind, w, h), (w * 31 + h) as u64);
            let n = img.mcus();
            let nmax = (img.comps[0].rw * img.comps[0].rh).max(n);
            for ri in 1..=nmax + 1 {
                c.case(
                    || format!("{} {}x{} ({} MCUs) interval {}", kind_name(kind), w, h, n, ri),
                    |c| {
                        let o = if ri & 1 == 0 { DEF } else { DEF.cs(Cs::YCbCr) };
                        let b = c.decode(&o, &baseline(&img)).want("without restarts")?;
                        let d = c.decode(&o, &baseline_ri(&img, ri)).want("baseline with restarts")?;
                        c.count("validated", 1);
                        eq(&img, &d, &b, "baseline")?;
                        for tf in [&t_long as TableFn, &t_skew, &t_flat] {
                            let f = file(&encode(&img, false, &[baseline_scan(&img, ri)], tf).parts);
                            let d = c.decode(&o, &f).want("baseline with restarts, other tables")?;
                            eq(&img, &d, &b, "baseline, other tables")?;
                        }
                        for k in [1, 2, 5] {
                            let mut e = encode(&img, false, &[baseline_scan(&img, ri)], &t_opt).parts;
                            fill_before_rst(&mut e, k);
                            let d = c.decode(&o, &file(&e)).want("fill bytes before restart markers")?;
                            eq(&img, &d, &b, "fill bytes before restart markers")?;
                        }
                        for (s, name) in [(simple_script(&img), "simple"), (full_script(&img), "full")] {
                            let s: Vec<Scan> = s.into_iter().map(|s| s.ri(ri)).collect();
                            let d = c.decode(&o, &progressive(&img, &s)).want("progressive with restarts")?;
                            c.count("validated", 1);
                            eq(&img, &d, &b, &format!("progressive, {} script", name))?;
                            let mut e = encode(&img, true, &s, &t_opt).parts;
                            fill_before_rst(&mut e, 1);
                            let d = c.decode(&o, &file(&e)).want("progressive, fill bytes")?;
                            eq(&img, &d, &b, "progressive, fill bytes before restart markers")?;
                        }
                        // the restart interval may be given before the frame header
                        let mut e = encode(&img, false, &[baseline_scan(&img, ri)], &t_opt).parts;
                        let p = e.iter().position(|p| p.marker == 0xdd).unwrap();
                        let x = e.remove(p);
                        e.insert(1, x);
                        let d = c.decode(&o, &file(&e)).want("DRI first")?;
                        eq(&img, &d, &b, "DRI before the frame header")
                    },
                );
            }
        }
    }
    // redefinition between scans: all pairs and (thorough) triples cycling through the scans
    for kind in [0, 1, 2, 4] {
        let img = filled(make(kind, 41, 25), 5);
        let m = c.pick(7usize, 20);
        for r1 in 0..=m {
            for r2 in 0..=m {
                c.case(
                    || format!("{} 41x25 progressive, intervals alternating {} and {}", kind_name(kind), r1, r2),
                    |c| {
                        let o = DEF.cs(Cs::YCbCr);
                        let b = c.decode(&o, &baseline(&img)).want("without restarts")?;
                        for script in [simple_script(&img), full_script(&img)] {
                            let s: Vec<Scan> = script.into_iter().enumerate().map(|(i, s)| s.ri([r1, r2, r1, r1 + 1][i % 4])).collect();
                            let d = c.decode(&o, &progressive(&img, &s)).want("intervals redefined between scans")?;
                            c.count("validated", 1);
                            eq(&img, &d, &b, "intervals redefined between scans")?;
                            // small EOB limit
                            let s: Vec<Scan> = s.into_iter().map(|s| s.eob(2)).collect();
                            let d = c.decode(&o, &progressive(&img, &s)).want("intervals redefined between scans")?;
                            eq(&img, &d, &b, "intervals redefined between scans, short runs")?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // interval lengths of every number of bits: blocks whose codes take a chosen number of bits
    let nb = c.pick(48, 160);
    for len in 2..=nb {
        for ri in 1..=c.pick(3usize, 6) {
            c.case(
                || format!("gray, blocks of {} bits, interval {}", len, ri),
                |c| {
                    // `len` bits: 1 (DC) + coefficients of 2+1 bits + EOB; remainder by DC code
                    for variant in 0..3 {
                        let n = 3 * ri + 2;
                        let mut img = Image::gray(8 * n, 8).quant(0, [16; 64]);
                        let ac = (len / 4).min(60);
                        for i in 0..n {
                            let b = &mut img.comps[0].blocks[i];
                            b[0] = [1, -1, 2][variant] * (i as i16 % 5);
                            for k in 0..ac {
                                b[1 + k] = if variant == 1 { -1 } else { 1 };
                            }
                        }
                        let dcl = (len - ac.min(len)) % 14 + 2;
                        let tf = |tc: u8, _: u8, f: &[u32; 256]| -> Table {
                            let s = syms_of(f);
                            if tc == 0 {
                                let mut need = 1;
                                while (1usize << need) - 1 < s.len() {
                                    need += 1;
                                }
                                Table::at_length(&s, (dcl as u8).max(need as u8))
                            } else {
                                Table::skewed(&s)
                            }
                        };
                        let b = c.decode(&DEF, &file(&encode(&img, false, &[baseline_scan(&img, 0)], &tf).parts)).want("without restarts")?;
                        let d = c.decode(&DEF, &file(&encode(&img, false, &[baseline_scan(&img, ri)], &tf).parts)).want("with restarts")?;
                        c.count("validated", 1);
                        eq(&img, &d, &b, "baseline")?;
                        let s: Vec<Scan> = full_script(&img).into_iter().map(|s| s.ri(ri)).collect();
                        let d = c.decode(&DEF, &file(&encode(&img, true, &s, &t_opt).parts)).want("progressive with restarts")?;
                        eq(&img, &d, &b, "progressive")?;
                    }
                    Ok(())
                },
            );
        }
    }
    // every interval of a range, each with the eight marker numbers gone round twice, and the
    // scan ending at, one before and one after a restart
    let mut ris: Vec<usize> = (1..=c.pick(200usize, 1100)).collect();
    ris.extend([127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025]);
    ris.sort();
    ris.dedup();
    for kind in 0..5 {
        for &ri in &ris {
            if kind != 0 && ri > c.pick(200, 700) {
                continue;
            }
            c.case(
                || format!("{}, interval {} with 18 restarts", kind_name(kind), ri),
                |c| {
                    let o = DEF.cs(Cs::YCbCr);
                    for extra in [0usize, 1, ri.saturating_sub(1)] {
                        // MCU columns: a number that neither divides nor is divided by most intervals
                        let n = 18 * ri + extra;
                        let one = make(kind, 1, 1);
                        let (hs, vs) = (8 * one.hmax, 8 * one.vmax);
                        let cols = (1..=if n > 2000 { 400usize } else { 23 }).rev().find(|k| n % k == 0).unwrap_or(1);
                        if n / cols * vs > 16000 {
                            continue;
                        }
                        let img = filled(make(kind, cols * hs, n / cols * vs), (ri * 7 + extra) as u64);
                        let b = c.decode(&o, &baseline(&img)).want("without restarts")?;
                        let d = c.decode(&o, &baseline_ri(&img, ri)).want("baseline with restarts")?;
                        c.count("validated", 1);
                        eq(&img, &d, &b, "baseline")?;
                        for s in [simple_script(&img), full_script(&img)] {
                            let s: Vec<Scan> = s.into_iter().map(|s| s.ri(ri)).collect();
                            let d = c.decode(&o, &progressive(&img, &s)).want("progressive with restarts")?;
                            eq(&img, &d, &b, "progressive")?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // large intervals and many markers
    for &(w, h, ri) in &[(520usize, 520usize, 65usize), (2048, 1024, 1), (2048, 1040, 1000), (2048, 2048, 65535), (4096, 1024, 65535), (4100, 1030, 32768)] {
        for kind in [0, 4] {
            c.case(
                || format!("{} {}x{} interval {}", kind_name(kind), w, h, ri),
                |c| {
                    let img = filled(make(kind, w, h), 17);
                    let b = c.decode(&DEF, &baseline(&img)).want("without restarts")?;
                    let d = c.decode(&DEF, &baseline_ri(&img, ri)).want("with restarts")?;
                    c.count("validated", 1);
                    eq(&img, &d, &b, "baseline")?;
                    let s: Vec<Scan> = simple_script(&img).into_iter().map(|s| s.ri(ri)).collect();
                    let d = c.decode(&DEF, &progressive(&img, &s)).want("progressive")?;
                    eq(&img, &d, &b, "progressive")
                },
            );
        }
    }
}

/// the common universe (uni.rs)
fn universe(c: &mut Ctx) {
    uni::images(c, |c, u, img| {
        for form in 0..uni::FORMS {
            for tabs in 0..uni::TABS {
                for ri in 1..uni::RIS {
                    let m = u.mix() + form + tabs * 3 + ri * 5;
                    let o = DEF.cs(CSS[m % 5]).us(m % 2 == 0).strict(m % 4 < 2).threads([4, 1, 3][m % 3]);
                    let a = c.decode(&o, &file(&uni::parts(img, form, tabs, 0).parts));
                    let b = c.decode(&o, &file(&uni::parts(img, form, tabs, ri).parts));
                    c.count("states", 1);
                    c.count("transitions", 2);
                    c.count("validated", 1);
                    if !a.same(&b) || a.ok().is_none() {
                        return Err(format!("{:?} form {} tables {}: interval {}: {} instead of {} without restarts", o, form, tabs, uni::interval(img, ri), b.brief(), a.brief()));
                    }
                }
            }
        }
        Ok(())
    });
}
