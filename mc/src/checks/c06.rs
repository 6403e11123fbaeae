//! Entropy decoding is exact for every legal Huffman table and bit alignment.
use super::c04::{blocks_image, permutations};
use super::common::*;
use super::*;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C06",
        level: "model_checking",
        rule: "states: (Huffman table, coefficient sequence, bit phase): every code length 1..16 x every run 0..15 x every size and value of an AC symbol, every code length x every DC difference, every legal length profile over small alphabets, every destination, every bit phase of dense blocks, complete 162-symbol tables, every end-of-band run at every bit position; transitions: decodes; the result must equal the decode of the same coefficients under canonical tables and the exact model",
        assumptions: &["reference encoder in mc/src/jpeg.rs", "coefficients are observed through the reconstructed samples"],
        passes: native_pass,
        run,
    }
}

struct Forms {
    base: bool,
    prog: bool,
}

/// decode `img` under the tables `tf` and compare with `want`
fn under(c: &mut Ctx, img: &Image, want: &[u8], tf: TableFn, f: Forms) -> Result<(), String> {
    let o = DEF.cs(if img.comps.len() == 1 { Cs::GRAYSCALE } else { Cs::YCbCr });
    let ch = want.len() / (img.w * img.h);
    if f.base {
        let d = file(&encode(img, false, &[baseline_scan(img, 0)], tf).parts);
        let r = c.decode(&o, &d).want("baseline")?;
        c.count("validated", 1);
        if r != want {
            return Err(format!("baseline: {}", first_diff(&r, want, img.w, ch)));
        }
    }
    if f.prog {
        let d = file(&encode(img, true, &simple_script(img), tf).parts);
        let r = c.decode(&o, &d).want("progressive")?;
        c.count("validated", 1);
        if r != want {
            return Err(format!("progressive: {}", first_diff(&r, want, img.w, ch)));
        }
    }
    Ok(())
}
/// canonical decode, checked against the model when every coefficient is in the legal range
fn canon(c: &mut Ctx, rf: &Ref, img: &Image, model: bool) -> Result<Vec<u8>, String> {
    let o = DEF.cs(if img.comps.len() == 1 { Cs::GRAYSCALE } else { Cs::YCbCr });
    let r = c.decode(&o, &baseline(img)).want("canonical tables")?;
    if model {
        compare_planes(img, &planes(rf, img), &r).map_err(|e| format!("canonical tables: {}", e))?;
        c.count("validated", 1);
    }
    Ok(r)
}

/// lengths: `target` gets `l`, the others are spread in what is left
fn with_target(syms: &[u8], target: u8, l: u8) -> Table {
    let others: Vec<u8> = syms.iter().copied().filter(|&s| s != target).collect();
    let n = others.len();
    // smallest common length that leaves room for the target and the reserved all-ones code
    for ol in 1..=16u8 {
        let full = 1u64 << 16;
        let used = (n as u64) << (16 - ol);
        let t = 1u64 << (16 - l);
        if used + t < full {
            let mut v: Vec<(u8, u8)> = others.iter().map(|&s| (s, ol)).collect();
            v.push((target, l));
            let mut bits = [0u8; 16];
            for &(_, x) in &v {
                bits[x as usize - 1] = bits[x as usize - 1].saturating_add(1);
            }
            let probe = Table { bits, vals: vec![0; v.len()] };
            if probe.legal() {
                return Table::from_lengths(&v);
            }
        }
    }
    unreachable!()
}

fn lengths_rec(n: usize, max: u8, cur: &mut Vec<u8>, f: &mut dyn FnMut(&[u8])) {
    if cur.len() == n {
        f(cur);
        return;
    }
    for l in 1..=max {
        cur.push(l);
        // legal so far?
        let used: u64 = cur.iter().map(|&l| 1u64 << (16 - l)).sum();
        if used < 1 << 16 {
            lengths_rec(n, max, cur, f);
        }
        cur.pop();
    }
}

fn run(c: &mut Ctx) {
    let rf = Ref::new();
    eob_runs(c);
    eob_phases(c);
    complete(c, &rf);
    // 1. every AC symbol at every code length with every value
    for l in 1..=16u8 {
        for s in 1..=10u8 {
            for r in 0..16usize {
                c.case(
                    || format!("AC run {} size {} at code length {}, all values", r, s, l),
                    |c| {
                        let lo = 1i32 << (s - 1);
                        let hi = (1i32 << s) - 1;
                        let mut q = [(2040 >> s).clamp(1, 64) as u8; 64];
                        q[2 + r] = 64;
                        let mut blocks = vec![];
                        let mut vals: Vec<i32> = (lo..=hi).collect();
                        vals.extend((lo..=hi).map(|v| -v));
                        // order in which consecutive bit patterns vary most
                        for (i, &v) in vals.iter().enumerate() {
                            let mut b = [0i16; 64];
                            b[1 + r] = v as i16;
                            b[2 + r] = if i & 1 == 0 { 1 } else { -1 };
                            blocks.push(b);
                        }
                        let n = blocks.len().min(32);
                        let img = blocks_image(&blocks, n, q);
                        let want = canon(c, &rf, &img, true)?;
                        let sym = (r as u8) << 4 | s;
                        let tf = |tc: u8, _: u8, f: &[u32; 256]| -> Table {
                            if tc == 0 {
                                Table::flat(&syms_of(f))
                            } else {
                                with_target(&syms_of(f), sym, l)
                            }
                        };
                        under(c, &img, &want, &tf, Forms { base: true, prog: true })
                    },
                );
            }
        }
    }
    // 2. the last coefficient at every position, with ZRLs and EOB at every length
    for l in 1..=16u8 {
        for &target in &[0xF0u8, 0x00, 0xF1, 0x01] {
            c.case(
                || format!("last coefficient at every position, symbol {:02x} at code length {}", target, l),
                |c| {
                    let mut blocks = vec![];
                    for k in 1..64 {
                        for v in [1i16, -1, 3, -6, 20] {
                            let mut b = [0i16; 64];
                            b[k] = v;
                            blocks.push(b);
                            // and one more at every later position modulo a stride
                            for k2 in (k + 1..64).step_by(5) {
                                b[k2] = -v;
                                blocks.push(b);
                                b[k2] = 0;
                            }
                        }
                        blocks.push([0; 64]);
                    }
                    for (i, b) in blocks.iter_mut().enumerate() {
                        b[0] = (i as i16 * 7) % 31 - 15;
                    }
                    let img = blocks_image(&blocks, 64, [16; 64]);
                    let want = canon(c, &rf, &img, true)?;
                    let tf = |tc: u8, _: u8, f: &[u32; 256]| -> Table {
                        let s = syms_of(f);
                        if tc == 0 || !s.contains(&target) {
                            Table::flat(&s)
                        } else {
                            with_target(&s, target, l)
                        }
                    };
                    under(c, &img, &want, &tf, Forms { base: true, prog: true })?;
                    // the same with superfluous ZRLs before the end of block
                    let mut sc = baseline_scan(&img, 0);
                    sc.quirk_zrl = true;
                    let d = file(&encode(&img, false, &[sc], &tf).parts);
                    let r = c.decode(&DEF.cs(Cs::GRAYSCALE), &d).want("ZRL before EOB")?;
                    if r != want {
                        return Err(format!("ZRL before EOB: {}", first_diff(&r, &want, img.w, 1)));
                    }
                    // refinement scans under the same lengths
                    let d = file(&encode(&img, true, &full_script(&img), &tf).parts);
                    let r = c.decode(&DEF.cs(Cs::GRAYSCALE), &d).want("full script")?;
                    if r != want {
                        return Err(format!("progressive with refinement: {}", first_diff(&r, &want, img.w, 1)));
                    }
                    Ok(())
                },
            );
        }
    }
    // 3. every DC difference at every code length
    for l in 1..=16u8 {
        for s in 0..=11u8 {
            c.case(
                || format!("DC size {} at code length {}, all differences", s, l),
                |c| {
                    let (lo, hi) = if s == 0 { (0, 0) } else { (1i32 << (s - 1), (1i32 << s) - 1) };
                    let mut blocks = vec![];
                    for m in lo..=hi {
                        for sg in [1, -1] {
                            let d = m * sg;
                            let t = m % 61 - 30;
                            // the block after the difference is visible exactly; keep both in +-1024
                            let mut a = [0i16; 64];
                            let mut b = [0i16; 64];
                            let t = if (t - d).abs() > 1024 { sg * (m - 1023) } else { t };
                            a[0] = (t - d) as i16;
                            b[0] = t as i16;
                            blocks.push(a);
                            blocks.push(b);
                        }
                    }
                    let n = blocks.len().min(64);
                    let mut q = [1u8; 64];
                    q[0] = 16;
                    let img = blocks_image(&blocks, n, q);
                    let want = canon(c, &rf, &img, true)?;
                    let tf = |tc: u8, _: u8, f: &[u32; 256]| -> Table {
                        let mut f = *f;
                        if tc == 0 {
                            for x in f.iter_mut().take(12) {
                                *x += 1;
                            }
                            with_target(&syms_of(&f), s, l)
                        } else {
                            Table::flat(&syms_of(&f))
                        }
                    };
                    under(c, &img, &want, &tf, Forms { base: true, prog: true })?;
                    // and with a point transform
                    let sc = [Scan::new(&[0], 0, 0, 0, 1), Scan::new(&[0], 1, 63, 0, 0), Scan::new(&[0], 0, 0, 1, 0)];
                    let d = file(&encode(&img, true, &sc, &tf).parts);
                    let r = c.decode(&DEF.cs(Cs::GRAYSCALE), &d).want("DC with point transform")?;
                    if r != want {
                        return Err(format!("DC with point transform: {}", first_diff(&r, &want, img.w, 1)));
                    }
                    Ok(())
                },
            );
        }
    }
    // 4. every legal length profile over small alphabets
    let alphabets: Vec<(usize, Vec<u8>, Vec<i16>)> = vec![
        // (n, AC symbols, dummy)
        (2, vec![0x00, 0x01], vec![]),
        (3, vec![0x00, 0x01, 0x12], vec![]),
        (3, vec![0x00, 0xF0, 0x03], vec![]),
        (4, vec![0x00, 0x05, 0x21, 0xF1], vec![]),
    ];
    let nprof = c.pick(4usize, 5);
    let mut alph = alphabets;
    if nprof == 5 {
        alph.push((5, vec![0x00, 0x06, 0x21, 0xF0, 0x1A], vec![]));
    }
    for (n, syms, _) in &alph {
        // one image using every symbol in several orders
        let mut blocks = vec![];
        let perms = permutations(*n);
        for (pi, p) in perms.iter().enumerate() {
            let mut b = [0i16; 64];
            let mut k = 1;
            b[0] = (pi % 5) as i16;
            for &i in p {
                let s = syms[i];
                if s == 0 {
                    continue;
                }
                let (r, z) = ((s >> 4) as usize, s & 15);
                k += r;
                if z == 0 {
                    k += 1;
                    continue;
                }
                if k > 62 {
                    break;
                }
                b[k] = ((1i16 << z) - 1 - (pi as i16 & (1 << z >> 1))) * if (pi + i) & 1 == 0 { 1 } else { -1 };
                if b[k] == 0 || cat(b[k] as i32) != z {
                    b[k] = 1i16 << (z - 1);
                }
                k += 1;
            }
            blocks.push(b);
        }
        blocks.truncate(30);
        let per = blocks.len();
        let img = blocks_image(&blocks, per, [2; 64]);
        let items = scan_items(&img, &baseline_scan(&img, 0), false);
        let used: Vec<u8> = freqs(&items).iter().find(|x| x.0 .0 == 1).map(|x| syms_of(&x.1)).unwrap();
        let mut profs: Vec<Vec<u8>> = vec![];
        lengths_rec(used.len(), 16, &mut vec![], &mut |l| profs.push(l.to_vec()));
        for chunk in profs.chunks(64) {
            c.case(
                || format!("AC alphabet {:02x?}: length profiles {:?}..{:?}", used, chunk[0], chunk[chunk.len() - 1]),
                |c| {
                    let want = canon(c, &rf, &img, true)?;
                    for p in chunk {
                        let v: Vec<(u8, u8)> = used.iter().copied().zip(p.iter().copied()).collect();
                        let tf = |tc: u8, _: u8, f: &[u32; 256]| -> Table {
                            if tc == 0 {
                                Table::flat(&syms_of(f))
                            } else {
                                // symbols that only appear in the progressive form go last
                                let mut v = v.clone();
                                for s in syms_of(f) {
                                    if !v.iter().any(|x| x.0 == s) {
                                        v.push((s, 16));
                                    }
                                }
                                let mut bits = [0u8; 16];
                                v.iter().for_each(|x| bits[x.1 as usize - 1] += 1);
                                if !(Table { bits, vals: vec![0; v.len()] }).legal() {
                                    return Table::flat(&syms_of(f));
                                }
                                Table::from_lengths(&v)
                            }
                        };
                        under(c, &img, &want, &tf, Forms { base: true, prog: true }).map_err(|e| format!("lengths {:?}: {}", p, e))?;
                    }
                    Ok(())
                },
            );
        }
        // DC profiles over the categories 0..n-1 spread out
        let cats: Vec<u8> = vec![0, 2, 5, 3, 7][..*n].to_vec();
        let mut blocks = vec![];
        let mut pred = 0i32;
        for p in &permutations(*n) {
            for &i in p {
                let z = cats[i];
                let m = if z == 0 { 0 } else { (1i32 << z) - 1 - (blocks.len() as i32 & 1) };
                let m = if z > 0 && cat(m) != z { 1 << (z - 1) } else { m };
                pred += if pred > 0 { -m } else { m };
                let mut b = [0i16; 64];
                b[0] = pred as i16;
                blocks.push(b);
            }
        }
        blocks.truncate(60);
        let per = blocks.len();
        let img = blocks_image(&blocks, per, [8; 64]);
        let items = scan_items(&img, &baseline_scan(&img, 0), false);
        let used: Vec<u8> = freqs(&items).iter().find(|x| x.0 .0 == 0).map(|x| syms_of(&x.1)).unwrap();
        let mut profs: Vec<Vec<u8>> = vec![];
        lengths_rec(used.len(), 16, &mut vec![], &mut |l| profs.push(l.to_vec()));
        for chunk in profs.chunks(64) {
            c.case(
                || format!("DC alphabet {:?}: length profiles {:?}..{:?}", used, chunk[0], chunk[chunk.len() - 1]),
                |c| {
                    let want = canon(c, &rf, &img, true)?;
                    for p in chunk {
                        let v: Vec<(u8, u8)> = used.iter().copied().zip(p.iter().copied()).collect();
                        let tf = |tc: u8, _: u8, f: &[u32; 256]| -> Table {
                            if tc == 0 {
                                Table::from_lengths(&v)
                            } else {
                                Table::flat(&syms_of(f))
                            }
                        };
                        under(c, &img, &want, &tf, Forms { base: true, prog: true }).map_err(|e| format!("lengths {:?}: {}", p, e))?;
                    }
                    Ok(())
                },
            );
        }
    }
    // 5. dense blocks at every bit phase, every (code length, size), several value patterns
    for l in 1..=16u8 {
        for s in 1..=10u8 {
            c.case(
                || format!("dense blocks of {}+{} bit coefficients at every bit phase", l, s),
                |c| {
                    let hi = (1i16 << s) - 1;
                    let lo = 1i16 << (s - 1);
                    for pat in 0..4 {
                        for ph in 0..c.pick(36usize, 70) {
                            let mut blocks = vec![];
                            if ph & 1 == 1 {
                                let mut b = [0i16; 64];
                                b[0] = 2;
                                blocks.push(b);
                            }
                            let d0 = if ph & 1 == 1 { 2 } else { 0 };
                            for _ in 0..ph / 2 {
                                let mut b = [0i16; 64];
                                b[0] = d0;
                                blocks.push(b);
                            }
                            for j in 0..2 {
                                let mut b = [0i16; 64];
                                b[0] = d0;
                                for k in 1..64 {
                                    b[k] = match pat {
                                        0 => hi,
                                        1 => -hi,
                                        2 => if (k + j) % 3 == 0 { -lo } else { hi },
                                        _ => if k % 2 == 0 { lo } else { -lo },
                                    };
                                }
                                if j == 1 {
                                    // leave room for an EOB
                                    b[63] = 0;
                                }
                                blocks.push(b);
                            }
                            for v in [0i16, 2, -3, 0] {
                                let mut b = [0i16; 64];
                                b[0] = d0 + v;
                                blocks.push(b);
                            }
                            let per = blocks.len();
                            let img = blocks_image(&blocks, per, [1; 64]);
                            let want = if l == 8 { canon(c, &rf, &img, s <= 4)? } else { canon(c, &rf, &img, false)? };
                            let tf = |tc: u8, _: u8, f: &[u32; 256]| -> Table {
                                if tc == 0 {
                                    let mut v: Vec<(u8, u8)> = vec![(0, 1)];
                                    for s in syms_of(f) {
                                        if s != 0 {
                                            v.push((s, if s == 2 { 2 } else { 5 }));
                                        }
                                    }
                                    Table::from_lengths(&v)
                                } else {
                                    with_target(&syms_of(f), s, l)
                                }
                            };
                            under(c, &img, &want, &tf, Forms { base: true, prog: ph % 5 == 0 }).map_err(|e| format!("phase {} pattern {}: {}", ph, pat, e))?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // 6. stuffed bytes everywhere: long codes of ones and all-ones values at every phase
    for l in 1..=16u8 {
        c.case(
            || format!("all-ones codes of length {} next to all-ones values, every phase", l),
            |c| {
                for s in 1..=10u8 {
                    for ph in 0..34usize {
                        let mut blocks = vec![];
                        for i in 0..ph / 2 + 4 {
                            let mut b = [0i16; 64];
                            b[0] = if i == 0 && ph & 1 == 1 { 3 } else if ph & 1 == 1 { 3 } else { 0 };
                            if i >= ph / 2 {
                                b[1] = (1 << s) - 1;
                                b[2] = (1 << s) - 1;
                                b[40] = -1;
                            }
                            blocks.push(b);
                        }
                        let per = blocks.len();
                        let mut q = [(2040 >> s).clamp(1, 64) as u8; 64];
                        q[2] = 1;
                        let img = blocks_image(&blocks, per, q);
                        let want = canon(c, &rf, &img, false)?;
                        // the target gets the code 1..10 (the largest of its length)
                        let tf = |tc: u8, _: u8, f: &[u32; 256]| -> Table {
                            let sy = syms_of(f);
                            if tc == 0 {
                                let mut v: Vec<(u8, u8)> = vec![(0, 1)];
                                v.extend(sy.iter().filter(|&&s| s != 0).map(|&s| (s, 4u8)));
                                return Table::from_lengths(&v);
                            }
                            let others: Vec<u8> = sy.iter().copied().filter(|&x| x != s).collect();
                            let mut v: Vec<(u8, u8)> = vec![];
                            // spine: one code of each length 1..l-1 (unused symbols fill it)
                            let mut it = others.iter().copied();
                            let mut junk = (0xA0u8..=0xFF).filter(|x| !sy.contains(x));
                            for d in 1..l {
                                v.push((it.next().unwrap_or_else(|| junk.next().unwrap()), d));
                            }
                            v.push((s, l));
                            let rest: Vec<u8> = it.collect();
                            // what is left goes below
                            if !rest.is_empty() {
                                let mut d = 1;
                                while (1usize << d) - 1 < rest.len() {
                                    d += 1;
                                }
                                if l as usize + d <= 16 {
                                    v.extend(rest.iter().map(|&x| (x, l + d as u8)));
                                } else {
                                    return with_target(&sy, s, l);
                                }
                            }
                            Table::from_lengths(&v)
                        };
                        under(c, &img, &want, &tf, Forms { base: true, prog: ph % 3 == 0 }).map_err(|e| format!("size {} phase {}: {}", s, ph, e))?;
                    }
                }
                Ok(())
            },
        );
    }
    // 7. destinations: every assignment of table destinations to components, decoys elsewhere
    let ncol = 4096usize;
    for chunk in (0..ncol).collect::<Vec<_>>().chunks(32) {
        c.case(
            || format!("colour: destination assignments {:?}..", chunk[0]),
            |c| {
                let img = filled(Image::color(17, 9, (2, 1)), 3);
                let want = canon(c, &rf, &img, true)?;
                for &a in chunk {
                    let d = |i: usize| (a >> (2 * i) & 3) as u8;
                    let mut sc = baseline_scan(&img, 0);
                    for i in 0..3 {
                        sc.comps[i].td = d(2 * i);
                        sc.comps[i].ta = d(2 * i + 1);
                    }
                    let mut e = encode(&img, false, &[sc], &t_by_dest).parts;
                    decoys(&mut e, false);
                    let r = c.decode(&DEF.cs(Cs::YCbCr), &file(&e)).want("destinations")?;
                    c.count("validated", 1);
                    if r != want {
                        return Err(format!("assignment {:?}: {}", (0..6).map(d).collect::<Vec<_>>(), first_diff(&r, &want, img.w, 3)));
                    }
                    let mut scr = simple_script(&img);
                    for s in scr.iter_mut() {
                        for x in s.comps.iter_mut() {
                            x.td = d(2 * x.ci);
                            x.ta = d(2 * x.ci + 1);
                        }
                    }
                    let mut e = encode(&img, true, &scr, &t_by_dest).parts;
                    decoys(&mut e, true);
                    let r = c.decode(&DEF.cs(Cs::YCbCr), &file(&e)).want("destinations, progressive")?;
                    if r != want {
                        return Err(format!("progressive, assignment {:?}: {}", (0..6).map(d).collect::<Vec<_>>(), first_diff(&r, &want, img.w, 3)));
                    }
                }
                Ok(())
            },
        );
    }
    for a in 0..16usize {
        c.case(
            || format!("gray: destinations dc {} ac {}", a & 3, a >> 2),
            |c| {
                let img = filled(Image::gray(33, 17), 4);
                let want = canon(c, &rf, &img, true)?;
                let set = |s: &mut Scan| {
                    s.comps[0].td = (a & 3) as u8;
                    s.comps[0].ta = (a >> 2) as u8;
                };
                let mut sc = baseline_scan(&img, 0);
                set(&mut sc);
                for tf in [&t_by_dest as TableFn, &t_long, &t_flat] {
                    let mut e = encode(&img, false, &[sc.clone()], tf).parts;
                    decoys(&mut e, false);
                    let r = c.decode(&DEF.cs(Cs::GRAYSCALE), &file(&e)).want("destinations")?;
                    if r != want {
                        return Err(first_diff(&r, &want, img.w, 1));
                    }
                }
                let mut scr = full_script(&img);
                scr.iter_mut().for_each(set);
                let mut e = encode(&img, true, &scr, &t_by_dest).parts;
                decoys(&mut e, true);
                let r = c.decode(&DEF.cs(Cs::GRAYSCALE), &file(&e)).want("destinations")?;
                if r != want {
                    return Err(format!("progressive: {}", first_diff(&r, &want, img.w, 1)));
                }
                Ok(())
            },
        );
    }
    // 8. big tables: 256 AC symbols / 16 DC symbols, many shapes, every symbol of the image in every slot
    for shift in 0..256usize {
        c.case(
            || format!("256-symbol AC tables rotated by {}", shift),
            |c| {
                let img = filled(Image::gray(33, 17), 4);
                let want = canon(c, &rf, &img, true)?;
                let vals: Vec<u8> = (0..256).map(|i| (i + shift) as u8).collect();
                let dcv: Vec<u8> = (0..16).map(|i| ((i + shift) % 16) as u8).collect();
                let shapes: [&[(u8, usize)]; 6] = [
                    &[(9, 256)],
                    &[(8, 250), (11, 6)],
                    &[(8, 254), (16, 2)],
                    &[(4, 14), (9, 60), (16, 182)],
                    &[(1, 1), (2, 1), (3, 1), (5, 2), (10, 30), (16, 221)],
                    &[(9, 200), (10, 56)],
                ];
                for sh in shapes {
                    let mut bits = [0u8; 16];
                    let mut ok = true;
                    for &(l, n) in sh {
                        if n > 255 {
                            ok = false;
                        }
                        bits[l as usize - 1] = n.min(255) as u8;
                    }
                    let mut vals = vals.clone();
                    if !ok {
                        // 255 codes is what one byte can say; drop a symbol the image does not need
                        let need = freqs(&scan_items(&img, &baseline_scan(&img, 0), false));
                        let need = &need.iter().find(|x| x.0 .0 == 1).unwrap().1;
                        let p = vals.iter().rposition(|&v| need[v as usize] == 0).unwrap();
                        vals.remove(p);
                    }
                    let t = Table { bits, vals };
                    if !t.legal() {
                        return Err("harness: illegal shape".into());
                    }
                    let dcs = [Table::at_length(&dcv, 5), Table::skewed(&dcv), Table::at_length(&dcv, 16), Table::at_length(&dcv, 9)];
                    for (i, dc) in dcs.iter().enumerate() {
                        let tf = |tc: u8, _: u8, _: &[u32; 256]| -> Table {
                            if tc == 0 {
                                dc.clone()
                            } else {
                                t.clone()
                            }
                        };
                        under(c, &img, &want, &tf, Forms { base: true, prog: ok && i == 0 }).map_err(|e| format!("shape {:?}: {}", sh, e))?;
                    }
                }
                Ok(())
            },
        );
    }
}

/// the 162 AC symbols of a baseline image
fn ac_symbols() -> Vec<u8> {
    let mut v = vec![0x00u8, 0xf0];
    for r in 0..16u8 {
        v.extend((1..=10u8).map(|s| r << 4 | s));
    }
    v
}
/// 10. tables with every AC symbol that use the code space up to the last code: the shapes of the
/// standard tables and others, every symbol in every slot
fn complete(c: &mut Ctx, rf: &Ref) {
    let all = ac_symbols();
    // every symbol, with its smallest and largest magnitudes
    let mut blocks = vec![];
    for &s in &all {
        let (r, z) = ((s >> 4) as usize, s & 15);
        if s == 0 || s == 0xf0 {
            let mut b = [0i16; 64];
            b[if s == 0 { 5 } else { 60 }] = 1;
            blocks.push(b);
            continue;
        }
        for v in [1i16 << (z - 1), (1 << z) - 1, -(1 << (z - 1)), 1 - (1 << z)] {
            let mut b = [0i16; 64];
            b[1 + r] = v;
            blocks.push(b);
        }
    }
    let img = blocks_image(&blocks, 32, [1; 64]);
    let std_bits = [Table::std(1, false).bits, Table::std(1, true).bits];
    // one code of each of the first lengths, the rest at the end; two codes left at each of some lengths
    let mut shapes: Vec<[u8; 16]> = std_bits.to_vec();
    let mut spread = [0u8; 16];
    let (mut room, mut left) = (1usize, all.len());
    for l in 1..=16usize {
        room *= 2;
        // keep as many codes as leave room for the rest below
        let mut n = 0;
        while left > n && (room - n - 1).saturating_sub(1) << (16 - l) >= left - n - 1 && n + 1 < room && n < 2 + l {
            n += 1;
        }
        if l == 16 {
            n = left.min(room - 1);
        }
        spread[l - 1] = n as u8;
        room -= n;
        left -= n;
    }
    if left == 0 {
        shapes.push(spread);
    }
    for (si, bits) in shapes.iter().enumerate() {
        for lo in (0..all.len()).step_by(9) {
            c.case(
                || format!("all 162 AC symbols, shape {}, rotations {}..", si, lo),
                |c| {
                    let want = canon(c, rf, &img, false)?;
                    for rot in lo..(lo + 9).min(all.len()) {
                        let mut vals = all.clone();
                        vals.rotate_left(rot);
                        let t = Table { bits: *bits, vals };
                        if !t.legal() {
                            return Err("harness: illegal shape".into());
                        }
                        let tf = |tc: u8, _: u8, f: &[u32; 256]| -> Table {
                            if tc == 0 {
                                Table::std(0, false)
                            } else if syms_of(f).iter().all(|s| all.contains(s)) {
                                t.clone()
                            } else {
                                t_opt(tc, 0, f)
                            }
                        };
                        under(c, &img, &want, &tf, Forms { base: true, prog: rot % 4 == 0 }).map_err(|e| format!("rotation {}: {}", rot, e))?;
                    }
                    Ok(())
                },
            );
        }
    }
}

fn eob_runs(c: &mut Ctx) {
    // 9. every end-of-band symbol at every code length, smallest, largest and a middle run
    for r in 0..15u32 {
        for l in c.pick(&[1u8, 2, 8, 9, 10, 15, 16][..], &[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16][..]) {
            c.case(
                || format!("end-of-band symbol {} with a code of {} bits", r, l),
                |c| {
                    for run in [1usize << r, (1 << r) + (1 << r) / 3, (2 << r) - 1] {
                        let mut bl = vec![[0i16; 64]; run + 2];
                        bl[0][63] = 7;
                        bl[run / 2][0] = 9;
                        bl[run + 1][63] = -5;
                        let img = blocks_image(&bl, 125.min(run + 2), [9; 64]);
                        let want = c.decode(&DEF.cs(Cs::GRAYSCALE), &baseline(&img)).want("canonical tables")?;
                        let tf = |tc: u8, _: u8, f: &[u32; 256]| -> Table {
                            let s = syms_of(f);
                            if tc == 1 && s.contains(&((r as u8) << 4)) {
                                with_target(&s, (r as u8) << 4, *l)
                            } else {
                                Table::flat(&s)
                            }
                        };
                        under(c, &img, &want, &tf, Forms { base: false, prog: true }).map_err(|e| format!("run {}: {}", run, e))?;
                        let s = [Scan::new(&[0], 0, 0, 0, 0), Scan::new(&[0], 1, 63, 0, 1), Scan::new(&[0], 1, 63, 1, 0)];
                        let d = file(&encode(&img, true, &s, &tf).parts);
                        let x = c.decode(&DEF.cs(Cs::GRAYSCALE), &d).want("refinement")?;
                        c.count("validated", 1);
                        if x != want {
                            return Err(format!("run {}, with refinement: {}", run, first_diff(&x, &want, img.w, 1)));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

/// every position of an end-of-band symbol and its run relative to the refills of the bit buffer
fn eob_phases(c: &mut Ctx) {
    for r in 0..15u32 {
        for l in c.pick(&[9u8, 16][..], &[1u8, 3, 8, 9, 10, 12, 13, 14, 15, 16][..]) {
            c.case(
                || format!("end-of-band symbol {} with a code of {} bits at 64 bit positions", r, l),
                |c| {
                    for ph in 0..64usize {
                        let run = (1usize << r) | 0x2b5d & ((1 << r) - 1);
                        let mut bl = vec![[0i16; 64]; run + 2];
                        // ten coefficients with 10 + ph extra bits altogether
                        for i in 0..10 {
                            let size = 1 + ph / 10 + (i < ph % 10) as usize;
                            bl[0][54 + i] = 1 << (size - 1);
                        }
                        bl[run + 1][63] = -5;
                        let img = blocks_image(&bl, 125.min(run + 2), [1; 64]);
                        let want = c.decode(&DEF.cs(Cs::GRAYSCALE), &baseline(&img)).want("canonical tables")?;
                        let tf = |tc: u8, _: u8, f: &[u32; 256]| -> Table {
                            let mut s = syms_of(f);
                            if tc == 1 && s.contains(&((r as u8) << 4)) {
                                for x in (1..9).chain([0x31, 0xf0]) {
                                    if !s.contains(&x) {
                                        s.push(x);
                                    }
                                }
                                with_target(&s, (r as u8) << 4, *l)
                            } else {
                                Table::flat(&s)
                            }
                        };
                        let o = DEF.cs(Cs::GRAYSCALE);
                        for s in [
                            vec![Scan::new(&[0], 0, 0, 0, 0), Scan::new(&[0], 1, 63, 0, 0)],
                            vec![Scan::new(&[0], 0, 0, 0, 0), Scan::new(&[0], 1, 63, 0, 1), Scan::new(&[0], 1, 63, 1, 0)],
                        ] {
                            let x = c.decode(&o, &file(&encode(&img, true, &s, &tf).parts)).want("progressive")?;
                            c.count("validated", 1);
                            if x != want {
                                return Err(format!("{} extra bits, {} scans: {}", ph, s.len(), first_diff(&x, &want, img.w, 1)));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

/// a different kind of table for each destination
fn t_by_dest(tc: u8, th: u8, f: &[u32; 256]) -> Table {
    match th {
        0 => t_opt(tc, th, f),
        1 => t_flat(tc, th, f),
        2 => t_skew(tc, th, f),
        _ => t_long(tc, th, f),
    }
}
/// define tables of odd content at every destination first; the real ones are (re)defined later
fn decoys(parts: &mut Vec<Part>, _progressive: bool) {
    let mut v = vec![];
    for th in 0..4u8 {
        v.push(((0, th), Table::from_lengths(&[(th + 3, 1), (1, 2), (9, 3)])));
        v.push(((1, th), Table::from_lengths(&[(0x11 + th, 1), (0, 2), (0x33, 5)])));
    }
    let p = parts.iter().position(|p| p.marker == 0xc4).unwrap();
    parts.insert(p, dht(&v));
}
